From 44866264ca4cccf0f1784457e4e81d97380796b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 01/50] fix: block allocator tests one bit, not the rest of the
 byte

An in-use block made every lower-numbered block that shares its bitmap byte
look in use, so allocation failed although a large enough run was free.
---
 src/memory/block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/block.c b/src/memory/block.c
index 5cb8baa..84e36f5 100644
--- a/src/memory/block.c
+++ b/src/memory/block.c
@@ -60,7 +60,7 @@ void * embc_mblock_alloc_unsafe(struct embc_mblock_s * self, int32_t size) {
     int32_t idx_start = idx_invalid;
     int32_t free_count = 0;
     for (int32_t idx_search = 0; idx_search < s->block_count; ++idx_search) {
-        int32_t bit = s->bitmap[idx_search / 8] >> (idx_search & 0x7);
+        int32_t bit = (s->bitmap[idx_search / 8] >> (idx_search & 0x7)) & 1;
         if (bit) {
             idx_start = idx_invalid;
             free_count = 0;
@@ -94,7 +94,7 @@ void embc_mblock_free(struct embc_mblock_s * self, void * buffer, int32_t size)
     int32_t blocks = size_to_blocks(s, size);
     int32_t idx_start = (b - s->mem) / s->block_size;
     for (int idx = idx_start; idx < idx_start + blocks; ++idx) {
-        int32_t bit = s->bitmap[idx / 8] >> (idx & 0x7);
+        int32_t bit = (s->bitmap[idx / 8] >> (idx & 0x7)) & 1;
         EMBC_ASSERT(bit);  // ensure already allocated
         s->bitmap[idx / 8] &= ~((uint8_t) (1 << (idx & 0x07)));
     }
-- 
2.43.0


From 71e6c61a718f6357492f4f3571c48f7db8271e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 02/50] fix: buffer allocator refuses sizes larger than its
 largest buffer

The limit was the total allocator memory, so a larger request selected a
size class past the end of the pool table.
---
 src/memory/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 02bc733..0da6360 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -85,7 +85,7 @@ void embc_buffer_allocator_initialize(
     }
     embc_memset(self, 0, total_size);
     uint8_t * memory = (uint8_t *) self;
-    self->size_max = total_size; // largest buffer
+    self->size_max = (length > 0) ? (32 << (length - 1)) : 0; // largest buffer
     uint8_t * buffers_ptr = memory + header_size;
 
     for (embc_size_t i = 0; i < length; ++i) {
-- 
2.43.0


From 68bf56d54c73aa59a42127da1d72898d721474e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/50] fix: a string that exactly fills a buffer is not
 truncated

The capacity check came before the end-of-string check, so an exact fit was
reported as truncated (and asserted in the non-truncating variant).  A
truncated write also forced the length down to the unreserved capacity, below
the cursor or existing contents.
---
 src/memory/buffer.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/buffer.c b/src/memory/buffer.c
index 0da6360..f5e8ab8 100644
--- a/src/memory/buffer.c
+++ b/src/memory/buffer.c
@@ -228,17 +228,17 @@ static inline bool write_str_(struct embc_buffer_s * buffer,
     EMBC_DBC_NOT_NULL(buffer);
     EMBC_DBC_NOT_NULL(str);
     uint16_t capacity = buffer->capacity - buffer->reserve;
-    while (buffer->cursor < capacity) {
-        if (*str == 0) {
+    while (*str) {
+        if (buffer->cursor >= capacity) {
             write_update_length(buffer);
-            return true;
+            return false;
         }
         buffer->data[buffer->cursor] = *str;
         ++str;
         ++buffer->cursor;
     }
-    buffer->length = capacity;
-    return false;
+    write_update_length(buffer);
+    return true;
 }
 
 void embc_buffer_write_str(struct embc_buffer_s * buffer,
-- 
2.43.0


From 9d4071f6246148ad4242fe2c53f42c417ad14058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 04/50] fix: static buffer initialization clears the reserve

---
 include/embc/memory/buffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/embc/memory/buffer.h b/include/embc/memory/buffer.h
index f388610..bd2d9a0 100644
--- a/include/embc/memory/buffer.h
+++ b/include/embc/memory/buffer.h
@@ -686,6 +686,7 @@ extern const struct embc_buffer_manager_s embc_buffer_manager_static;
     } while(0); \
     (name).cursor = 0; \
     (name).length = 0; \
+    (name).reserve = 0; \
     (name).buffer_id = 0; \
     (name).flags = 0; \
     (name).manager = &embc_buffer_manager_static; \
-- 
2.43.0


From f9e152810316d46c6a9e1d5e6e2545cd08bbb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 05/50] fix: embc_list_foreach_reverse_unsafe names the prev
 member

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 8e9ea46..4f21acf 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -321,7 +321,7 @@ static inline void embc_list_insert_after(
  * (usually) minor performance improvement.
  */
 #define embc_list_foreach_reverse_unsafe(list, item) \
-    for (item = (list)->prevnext; item != (list); \
+    for (item = (list)->prev; item != (list); \
          item = item->prev)
 
 /**
-- 
2.43.0


From 9ac40b6d0ab14ee1cec282d0191b7c4ad6bf8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 06/50] fix: embc_list_contains returned the opposite answer

---
 include/embc/collections/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 4f21acf..638c86b 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -392,7 +392,7 @@ EMBC_API embc_size_t embc_list_index_of(struct embc_list_s * list,
  */
 static inline bool embc_list_contains(struct embc_list_s * list,
                                       struct embc_list_s * item) {
-    return (embc_list_index_of(list, item) < 0);
+    return (embc_list_index_of(list, item) >= 0);
 }
 
 /**
-- 
2.43.0


From 40d5013190158e8085893f932271dfb600241a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 07/50] fix: embc_list_append with an empty source corrupted
 the target

---
 include/embc/collections/list.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/embc/collections/list.h b/include/embc/collections/list.h
index 638c86b..f68d8ec 100644
--- a/include/embc/collections/list.h
+++ b/include/embc/collections/list.h
@@ -404,6 +404,9 @@ static inline bool embc_list_contains(struct embc_list_s * list,
  */
 static inline void embc_list_append(struct embc_list_s * list_tgt,
                                     struct embc_list_s * list) {
+    if (embc_list_is_empty(list)) {
+        return;
+    }
     list->prev->next = list_tgt;
     list->next->prev = list_tgt->prev;
     list_tgt->prev->next = list->next;
-- 
2.43.0


From 2018133f433e9d9f755b87bdd900ad55c23cf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 08/50] fix: embc_hashmap_free releases the entries and the
 table

---
 src/collections/hashmap.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/collections/hashmap.c b/src/collections/hashmap.c
index c207859..5960c6e 100644
--- a/src/collections/hashmap.c
+++ b/src/collections/hashmap.c
@@ -63,7 +63,15 @@ struct embc_hashmap_s * embc_hashmap_new(embc_hashmap_hash hash, embc_hashmap_eq
 
 void embc_hashmap_free(struct embc_hashmap_s * self) {
     if (self) {
-        // free everything
+        for (embc_size_t idx = 0; idx <= self->hashtable_mask; ++idx) {
+            struct entry_s * item = self->hashtable[idx];
+            while (item) {
+                struct entry_s * next_item = item->next;
+                embc_free(item);
+                item = next_item;
+            }
+        }
+        embc_free(self->hashtable);
         embc_free(self);
     }
 }
-- 
2.43.0


From f0505239478e2ff2374c39668b5e3597a75381dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 09/50] fix: embc_intmap_remove releases the removed entry

---
 src/collections/intmap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index fc0e2e0..4555bee 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -189,8 +189,7 @@ int embc_intmap_remove(struct embc_intmap_s * self, embc_size_t key, void ** old
                     itermap_iterator_next_advance(iter);
                 }
             }
-            item->next = 0;
-            item->value = 0;
+            embc_free(item);
             return 0;
         }
         previous = &(item->next);
-- 
2.43.0


From 8e73541c783fb61a9c5c0f2f58e8d531b2b80f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:45 +0000
Subject: [PATCH 10/50] fix: intmap iterator ends after an entry in the last
 bin

It kept returning that entry forever.
---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 4555bee..9d18f5e 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -207,6 +207,7 @@ static void itermap_iterator_next_advance(struct embc_intmap_iterator_s * self)
             self->current_bin += 1;
         }
     }
+    self->next_item = 0;
     while (self->current_bin <= self->intmap->hash_mask) {
         self->next_item = self->intmap->bins[self->current_bin];
         if (self->next_item) {
-- 
2.43.0


From 7bd04ec9490334b190936a757b29934641140d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:53 +0000
Subject: [PATCH 11/50] fix: intmap resize keeps all entries that share a bin

---
 src/collections/intmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index 9d18f5e..d104d88 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -109,7 +109,7 @@ static void resize(struct embc_intmap_s * self) {
             item->next = 0;
             previous = &self->bins[compute_bin(self, item->key)];
             while (*previous) {
-                *previous = (*previous)->next;
+                previous = &((*previous)->next);
             }
             *previous = item;
         }
-- 
2.43.0


From 82e217b93278684a57d19721c2d895de0c0dd001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 12/50] fix: intmap resize releases the old bins

---
 src/collections/intmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collections/intmap.c b/src/collections/intmap.c
index d104d88..1cb8610 100644
--- a/src/collections/intmap.c
+++ b/src/collections/intmap.c
@@ -114,6 +114,7 @@ static void resize(struct embc_intmap_s * self) {
             *previous = item;
         }
     }
+    embc_free(bins_old);
 }
 
 int embc_intmap_put(struct embc_intmap_s * self, embc_size_t key, void * value, void ** old_value) {
-- 
2.43.0


From d94ed608b01669f1227dc511541ed22bf699d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:12 +0000
Subject: [PATCH 13/50] fix: typed intmap wrappers release themselves

---
 include/embc/collections/intmap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/embc/collections/intmap.h b/include/embc/collections/intmap.h
index e374a13..9761bae 100644
--- a/include/embc/collections/intmap.h
+++ b/include/embc/collections/intmap.h
@@ -179,7 +179,10 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
         self->intmap = embc_intmap_new(); \
         return self; \
     } \
-    void name##_free(struct name##_s * self) { embc_intmap_free(self->intmap); } \
+    void name##_free(struct name##_s * self) { \
+        embc_intmap_free(self->intmap); \
+        free(self); \
+    } \
     embc_size_t name##_length(struct name##_s * self) { return embc_intmap_length(self->intmap); } \
     int name##_put(struct name##_s * self, embc_size_t key, type value, type * old_value) { \
         return embc_intmap_put(self->intmap, key, (void *) value, (void **) old_value); \
@@ -200,6 +203,7 @@ EMBC_API void embc_intmap_iterator_free(struct embc_intmap_iterator_s * self);
     } \
     void name##_iterator_free(struct name##_iterator_s * self) { \
         embc_intmap_iterator_free(self->iter); \
+        free(self); \
     }
 
 /** @} */
-- 
2.43.0


From fad8f9c1678708112cefed4826dc89064ee7b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 14/50] fix: event callbacks may cancel other due events

---
 src/event_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index a3f7bde..9929c08 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -114,7 +114,9 @@ int32_t embc_evm_process(struct embc_evm_s * self, int64_t time_current) {
     struct embc_list_s * node;
     struct event_s * ev;
     int32_t count = 0;
-    embc_list_foreach(&self->events_pending, node) {
+    // callbacks may schedule and cancel events: always start over at the head.
+    while (!embc_list_is_empty(&self->events_pending)) {
+        node = embc_list_peek_head(&self->events_pending);
         ev = EVGET(node);
         if (ev->timestamp > time_current) {
             break;
-- 
2.43.0


From bf9be2a0af7c5b5717437a91c8c92daec4eff0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 15/50] fix: embc_evm_free releases the events

---
 src/event_manager.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event_manager.c b/src/event_manager.c
index 9929c08..0fb92ba 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -45,8 +45,19 @@ struct embc_evm_s * embc_evm_allocate() {
     return self;
 }
 
+static void list_free(struct embc_list_s * list) {
+    struct embc_list_s * node;
+    while ((node = embc_list_remove_head(list))) {
+        free(EVGET(node));
+    }
+}
+
 void embc_evm_free(struct embc_evm_s * self) {
-    free(self);
+    if (self) {
+        list_free(&self->events_pending);
+        list_free(&self->events_free);
+        free(self);
+    }
 }
 
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
-- 
2.43.0


From 4921ec0037a3a0f67eba69baaccc5bae2973bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 16/50] fix: embc_evm_schedule ignores timestamps that are not
 positive

---
 src/event_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/event_manager.c b/src/event_manager.c
index 0fb92ba..9b0195b 100644
--- a/src/event_manager.c
+++ b/src/event_manager.c
@@ -63,6 +63,9 @@ void embc_evm_free(struct embc_evm_s * self) {
 int32_t embc_evm_schedule(struct embc_evm_s * self, int64_t timestamp,
                           embc_evm_callback cbk_fn, void * cbk_user_data) {
     struct event_s * ev = 0;
+    if (timestamp <= 0) {
+        return 0;
+    }
     if (embc_list_is_empty(&self->events_free)) {
         ++self->event_counter;
         ev = calloc(1, sizeof(struct event_s));
-- 
2.43.0


From 3234ff7776f9ae4f78daac79e3eb20f8dd4047bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 17/50] fix: a truncated command line is never executed

---
 src/cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index b0b1260..2853ad8 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -115,7 +115,8 @@ static void embc_cli_compact(embc_cli_t * self) {
     for (i = 0; i < self->cmdlen; ++i) {
         if (i >= EMBC_CLI_LINE_LENGTH) {
             // line too long - do not compact.
-            break;
+            self->cmdlen = EMBC_CLI_LINE_LENGTH;
+            return;
         }
         char ch = self->cmdline[i];
         if (isCommentStart(&ch)) { /* start of a comment */
-- 
2.43.0


From 01ec21f9e99a488b3bc72b95fde094df3c56157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 18/50] fix: embc_cli_line_parser does not read past the end of
 the string

---
 src/cli.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 2853ad8..486b38c 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -223,8 +223,12 @@ int embc_cli_line_parser(void * self, const char * cmdline) {
     char * argv[EMBC_CLI_MAX_ARGS];
     char * lineptr = line;
     embc_memset(&argv, 0, sizeof(argv));
-    embc_memcpy(line, cmdline, sizeof(line));
-    line[sizeof(line) - 1] = 0; // just to be sure.
+    embc_size_t length = 0;
+    while (cmdline[length] && (length < (embc_size_t) (sizeof(line) - 1))) {
+        line[length] = cmdline[length];
+        ++length;
+    }
+    line[length] = 0;
     while (1) {
         // consume multiple delimiters
         while (*lineptr && _is_delimiter(*lineptr, delimiters)) {
-- 
2.43.0


From d4ac97f217f267ffa4156d560849763684a57bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 19/50] fix: execute_args receives the caller's execute_cookie

---
 src/cli.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 486b38c..6aa669b 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -151,7 +151,9 @@ static void embc_cli_process_line(embc_cli_t * self) {
         print_newline(self);
     } else { // valid command
         int rc = EMBC_CLI_SUCCESS;
-        if (self->execute_line) {
+        if (self->execute_args) {
+            rc = embc_cli_line_parser(self, self->cmdline);
+        } else if (self->execute_line) {
             rc = self->execute_line(self->execute_cookie, self->cmdline);
         }
         if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
@@ -171,10 +173,6 @@ void embc_cli_initialize(embc_cli_t * self) {
     EMBC_DBC_NOT_NULL(self);
     embc_memset(self->cmdline, 0, sizeof(self->cmdline));
     self->cmdlen = 0;
-    if (self->execute_args) {
-        self->execute_line = embc_cli_line_parser;
-        self->execute_cookie = self;
-    }
     print_prompt(self);
 }
 
-- 
2.43.0


From d8de75cef4bc7be420b7e3a15a7cd8c2d28fd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 20/50] fix: stream sink reports an overflow and stores nothing
 after it

---
 include/embc/stream/async_sink.h | 1 +
 src/stream/async_sink.c          | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/embc/stream/async_sink.h b/include/embc/stream/async_sink.h
index e5f8576..440c13c 100644
--- a/include/embc/stream/async_sink.h
+++ b/include/embc/stream/async_sink.h
@@ -59,6 +59,7 @@ struct embc_stream_sink_s {
     uint8_t * transaction_buffer;
     uint16_t transaction_length;
     uint8_t mode;
+    uint8_t overflow;
     uint8_t * dst_buffer;
     uint32_t dst_length;
     uint32_t offset;
diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index eca0940..f03f9dd 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -55,6 +55,7 @@ static void send(struct embc_stream_consumer_s * self,
             transaction->file_id = 1;
             s->mode = 1;
             s->offset = 0;
+            s->overflow = 0;
             s->producer->send(s->producer, transaction);
             if (s->dst_buffer) {
                 send_write_request(s);
@@ -68,8 +69,10 @@ static void send(struct embc_stream_consumer_s * self,
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
             if (s->dst_buffer) {
-                if (s->dst_length < (s->offset + transaction->length)) {
+                if (s->overflow || (s->dst_length < (s->offset + transaction->length))) {
                     EMBC_LOGW("async_sink buffer overflow");
+                    s->overflow = 1;  // store nothing after the gap
+                    transaction->status = EMBC_ERROR_TOO_BIG;
                 } else {
                     embc_memcpy(s->dst_buffer + s->offset,
                            transaction->data.ioctl_write.ptr,
@@ -143,6 +146,7 @@ void embc_stream_sink_receive(
     self->done_fn = done_fn;
     self->done_user_data = done_user_data;
     self->offset = 0;
+    self->overflow = 0;
     if (send_connect && self->mode) {
         send_event(self, EMBC_STREAM_EVENT_CONNECT);
         send_write_request(self);
-- 
2.43.0


From 00ac79e0d19eee33e78b3c8711603132d41545bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 21/50] fix: stream sink requests data only while open

---
 src/stream/async_sink.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index f03f9dd..e966ed5 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -81,10 +81,12 @@ static void send(struct embc_stream_consumer_s * self,
                 }
             }
             s->producer->send(s->producer, transaction);
-            send_write_request(s);
+            if (s->mode) {  // unless closed by the producer
+                send_write_request(s);
+            }
             break;
         case EMBC_STREAM_IOCTL_CLOSE:
-            s->mode = 1;
+            s->mode = 0;
             if (s->done_fn) {
                 s->done_fn(s->done_user_data, s->dst_buffer, s->offset);
             }
-- 
2.43.0


From b69a01e953cfb2cabe5be8a64f4d70ad4e214dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 22/50] fix: stream sink responds to a no-op request

---
 src/stream/async_sink.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index e966ed5..9675e44 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -51,6 +51,12 @@ static void send(struct embc_stream_consumer_s * self,
     EMBC_DBC_NOT_NULL(self);
     struct embc_stream_sink_s * s = EMBC_CONTAINER_OF(self, struct embc_stream_sink_s, consumer);
     switch (transaction->type) {
+        case EMBC_STREAM_IOCTL_NOOP:
+            transaction->status = EMBC_SUCCESS;
+            if (s->producer) {
+                s->producer->send(s->producer, transaction);
+            }
+            break;
         case EMBC_STREAM_IOCTL_OPEN: {
             transaction->file_id = 1;
             s->mode = 1;
-- 
2.43.0


From e4ee1c6208b690d3a557e684092d6593ab729f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 23/50] fix: stream source respects the consumer's maximum
 transfer unit

---
 src/stream/async_source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/async_source.c b/src/stream/async_source.c
index 4291c5f..b380e37 100644
--- a/src/stream/async_source.c
+++ b/src/stream/async_source.c
@@ -45,6 +45,7 @@ static void send(struct embc_stream_producer_s * self,
             uint32_t remaining = s->source_length - s->tx_offset;
             uint8_t * buffer;
             if (!sz) {
+                uint16_t mtu = transaction->data.event_write_request_producer_buffer.mtu;
                 if (s->transaction_length) {
                     sz = s->transaction_length;
                     buffer = s->transaction_buffer;
@@ -52,6 +53,9 @@ static void send(struct embc_stream_producer_s * self,
                     sz = sizeof(s->transaction_buffer);
                     buffer = (uint8_t *) &s->transaction_buffer;
                 }
+                if (mtu && (mtu < sz)) {
+                    sz = mtu;
+                }
             } else {
                 buffer = transaction->data.event_write_request_consumer_buffer.ptr;
             }
-- 
2.43.0


From 7186405ed31400f9496ca98689762ccd0523034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 24/50] fix: the pattern receiver counts all duplicated words

---
 src/pattern_32a.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 750bf52..ddfe641 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -118,6 +118,7 @@ void embc_pattern_32a_rx_initialize(
     embc_pattern_32a_tx_initialize(&self->tx);
     self->receive_count = 0;
     self->missing_count = 0;
+    self->duplicate_count = 0;
     self->error_count = 0;
     self->resync_count = 0;
     self->syncword1 = 0;
@@ -183,7 +184,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
 
     if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
-        self->duplicate_count = EMBC_PATTERN_32A_PERIOD - delta - incr;
+        self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
         self->missing_count += incr + delta;
     }
@@ -206,6 +207,7 @@ void embc_pattern_32a_rx_next(
         case ST_UNSYNC2: {
             if (resync(self, self->syncword1, value)) {
                 self->missing_count = 0;
+                self->duplicate_count = 0;
                 self->error_count = 0;
                 self->state = ST_SYNC;
             } else {
-- 
2.43.0


From 1be59f87f7d5ed9a1f4f79310aba44c5b9469d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 25/50] fix: a pattern skip of half the period plus one is
 presumed to be a duplicate

---
 src/pattern_32a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index ddfe641..3d09d22 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -182,7 +182,7 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     }
     delta *= 2; // total pattern value = 2 words
 
-    if (delta > (EMBC_PATTERN_32A_PERIOD / 2)) {
+    if ((incr + delta) > (EMBC_PATTERN_32A_PERIOD / 2)) {
         // presume duplicated
         self->duplicate_count += EMBC_PATTERN_32A_PERIOD - delta - incr;
     } else {
-- 
2.43.0


From c79ceadb78d68b67af30adae157d0b89cf0029f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 26/50] fix: the pattern receiver only synchronizes to words of
 the pattern

---
 src/pattern_32a.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pattern_32a.c b/src/pattern_32a.c
index 3d09d22..0ae0385 100644
--- a/src/pattern_32a.c
+++ b/src/pattern_32a.c
@@ -129,6 +129,10 @@ static bool is_counter_value(uint32_t value) {
     return (((~value) >> 16) == (value & 0xffff));
 }
 
+static bool is_shift_value(uint32_t value) {
+    return (0 == (value & (value - 1)));  // zero or a single bit
+}
+
 static uint8_t shift_position(uint32_t shift) {
     // CLZ instruction would be much faster
     uint8_t position = 0;
@@ -155,6 +159,9 @@ static bool resync(struct embc_pattern_32a_rx_s * self, uint32_t v1, uint32_t v2
     if (v1_is_counter == v2_is_counter) {
         return false;
     }
+    if (!is_shift_value(v1_is_counter ? v2 : v1)) {
+        return false;  // not a word of the pattern
+    }
 
     // Since tx state holds next values, sync to before v1
     if (v2_is_counter && !v1_is_counter) { // most recent is counter
-- 
2.43.0


From 72a577b231e065d27104ac105b71fbbcd78a8690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 27/50] fix: the framer orders received frames correctly when
 the frame id wraps

---
 src/stream/framer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 5ba59ac..9bcb03f 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -310,10 +310,10 @@ static void rx_insert(struct embc_framer_s *self, struct embc_buffer_s * frame)
     embc_list_foreach(&self->rx_pending, item) {
         struct embc_buffer_s * f = embc_list_entry(item, struct embc_buffer_s, item);
         struct embc_framer_header_s * h1 = buffer_hdr(f);
-        uint8_t delta = h->frame_id - h1->frame_id;
+        uint8_t delta = (h->frame_id - h1->frame_id) & EMBC_FRAMER_ID_MASK;
         if (0 == delta) { // duplicate
             return;
-        } else if (delta > 128) { // before current item
+        } else if (delta > 8) { // before current item
             embc_list_insert_before(item, &frame->item);
             return;
         }
-- 
2.43.0


From f5cf6191dee99dfa116ffdd5ad4cee1c600bb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 28/50] fix: the framer releases received frames for invalid
 ports

---
 src/stream/framer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 9bcb03f..9c6967e 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -660,6 +660,7 @@ static void rx_hook_fn(
     struct embc_framer_header_s hdr = *buffer_hdr(frame);
     if (hdr.port >= EMBC_FRAMER_PORTS) {
         EMBC_LOGW("invalid port %d", (int) hdr.port);
+        embc_buffer_free(frame);
         return;
     }
     EMBC_ASSERT(frame->length == (hdr.length + EMBC_FRAMER_HEADER_SIZE + EMBC_FRAMER_FOOTER_SIZE));
-- 
2.43.0


From 22761e7efded986051ca3123c1f518759dc992c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 29/50] fix: framer resynchronization examines every byte after
 a recovered frame

---
 src/stream/framer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 9c6967e..d68077d 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -799,9 +799,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
     }
     self->rx_state = ST_SOF_UNSYNC;
 
-    for (; i < count; ++i) {
+    while (i < count) {
         uint8_t * b = self->rx_buffer->data + i;
         if (*b != SOF) {
+            ++i;
             continue;
         }
         sz = count - i;
@@ -815,6 +816,7 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 self->rx_state = ST_PAYLOAD_AND_FOOTER;
                 goto exit;
             case EMBC_ERROR_MESSAGE_INTEGRITY:
+                ++i;
                 break;  // consume & keep trying
             case EMBC_SUCCESS: {
                 self->rx_state = ST_SOF;
@@ -830,8 +832,10 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
                 break;
             }
             case EMBC_ERROR_IO:
+                ++i;
                 break;
             default:
+                ++i;
                 break;
         }
     }
-- 
2.43.0


From 9ed3ad9259d704c6adce9a8c8415167e2b8ba953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 30/50] fix: embc_framer_send accepts maximum length payloads
 in any buffer

---
 src/stream/framer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index d68077d..550d36c 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -998,7 +998,7 @@ void embc_framer_send(
 
     if (buffer->reserve < EMBC_FRAMER_FOOTER_SIZE) {
         EMBC_LOGD("embc_framer_send buffer copy %p", (void *) buffer);
-        EMBC_ASSERT(length < EMBC_FRAMER_PAYLOAD_MAX_SIZE);
+        EMBC_ASSERT(length <= EMBC_FRAMER_PAYLOAD_MAX_SIZE);
         struct embc_buffer_s * b = embc_framer_alloc(self);
         embc_buffer_write(b, buffer->data, length);
         embc_buffer_free(buffer);
-- 
2.43.0


From 2464c1119d3e036ab54595b33dffec226ced1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 31/50] fix: embc_framer_resync aborts queued frames

---
 src/stream/framer.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 550d36c..f122342 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -440,14 +440,11 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
-    struct embc_framer_header_s hdr = *buffer_hdr(t->b);
-    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) t->b, (int) hdr.port, (int) status);
+static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, uint8_t status) {
+    struct embc_framer_header_s hdr = *buffer_hdr(b);
+    EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(t->b);
-    t->b = 0;
-    t->status = TX_STATUS_EMPTY;
-    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    embc_buffer_free(b);
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -462,6 +459,14 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     }
 }
 
+static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
+    struct embc_buffer_s * b = t->b;
+    t->b = 0;
+    t->status = TX_STATUS_EMPTY;
+    embc_list_add_tail(&self->tx_buffers_free, &t->item);
+    tx_complete_buffer(self, b, status);
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
@@ -480,9 +485,9 @@ static void tx_purge_queued(struct embc_framer_s * self) {
         tx_complete(self, t, EMBC_ERROR_ABORTED);
     }
     embc_list_foreach(&self->tx_queue, item) {
-        struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
+        struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         embc_list_remove(item);
-        tx_complete(self, t, EMBC_ERROR_ABORTED);
+        tx_complete_buffer(self, b, EMBC_ERROR_ABORTED);
     }
 }
 
-- 
2.43.0


From 75047eb44fc4795ee3d8d7e490aa18d0689874e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 32/50] fix: the framer always keeps its timer set while frames
 await an ack

---
 src/stream/framer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index f122342..7683117 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -519,6 +519,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
     struct embc_list_s * item;
     struct tx_buf_s * t;
     EMBC_LOGD("timer_callback %d", (int) timer_id);
+    self->next_timeout = EMBC_TIME_MAX;  // expired, no longer set
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     if (current_time >= self->rx_next_timeout) {
         self->rx_next_timeout = EMBC_TIME_MAX;
@@ -556,7 +557,7 @@ static void timer_schedule(struct embc_framer_s * self) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-        if (t->timeout < timeout) {
+        if ((TX_STATUS_ACKED != t->status) && (t->timeout < timeout)) {
             timeout = t->timeout;
         }
     }
@@ -575,7 +576,7 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
     self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
-    timer_schedule(self);
+    // WARNING: the caller must call timer_schedule() when done
 }
 
 static void transmit_queued(struct embc_framer_s * self) {
@@ -649,6 +650,7 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
         }
@@ -1030,6 +1032,7 @@ void embc_framer_send(
     self->tx_next_frame_id = frame_id_incr(self->tx_next_frame_id);
     embc_list_add_tail(&self->tx_queue, &buffer->item);
     transmit_queued(self);
+    timer_schedule(self);
 }
 
 void embc_framer_send_payload(
-- 
2.43.0


From a962e29c231625f5ace7a967fb048ddd74d59208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 33/50] fix: the framer continues after giving up a frame

---
 src/stream/framer.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 7683117..31de83a 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -93,6 +93,7 @@ static inline uint8_t frame_id_incr(uint8_t frame_id) {
 }
 
 static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t);
+static void transmit_queued(struct embc_framer_s * self);
 static void timer_schedule(struct embc_framer_s * self);
 
 struct embc_framer_s {
@@ -417,17 +418,6 @@ static inline void send_frame_ack(
     self->hal_cbk.tx_fn(self->hal_cbk.hal, ack);
 }
 
-static uint8_t expected_tx_frame_id(struct embc_framer_s * self) {
-    struct embc_list_s * item;
-    if (embc_list_is_empty(&self->tx_buffers_active)) {
-        return 255;
-    }
-    item = embc_list_peek_head(&self->tx_buffers_active);
-    struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
-    struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-    return hdr->frame_id;
-}
-
 static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id) {
     struct embc_list_s * item;
     embc_list_foreach(&self->tx_buffers_active, item) {
@@ -467,6 +457,19 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     tx_complete_buffer(self, b, status);
 }
 
+static void tx_resume(struct embc_framer_s * self) {
+    // continue after giving up a frame
+    while (!embc_list_is_empty(&self->tx_buffers_active)) {
+        struct embc_list_s * item = embc_list_peek_head(&self->tx_buffers_active);
+        struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
+        if (TX_STATUS_ACKED != t->status) {
+            break;
+        }
+        tx_complete(self, t, 0);
+    }
+    transmit_queued(self);
+}
+
 static void tx_error(struct embc_framer_s * self, struct tx_buf_s * t, uint8_t status) {
     if (t->retries >= EMBC_FRAMER_MAX_RETRIES) {
         tx_complete(self, t, status);
@@ -495,12 +498,10 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
     // Complete only when guaranteed in order!
     bool match_current = false;
     struct embc_list_s * item;
-    uint8_t tx_ack_frame_id = expected_tx_frame_id(self);
     embc_list_foreach(&self->tx_buffers_active, item) {
         struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
         match_current |= (t == t_current);
-        struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-        if ((TX_STATUS_ACKED == t->status) && (hdr->frame_id == tx_ack_frame_id)) {
+        if (TX_STATUS_ACKED == t->status) {
             tx_complete(self, t, 0);
         } else if (!match_current && (t->status == TX_STATUS_AWAIT_ACK)) {
             ++self->status.tx_retransmit_count;
@@ -509,7 +510,6 @@ static void tx_complete_in_order(struct embc_framer_s * self, struct tx_buf_s *
         } else {
             break;
         }
-        tx_ack_frame_id = frame_id_incr(tx_ack_frame_id);
     }
 }
 
@@ -531,6 +531,7 @@ static void timer_callback(void * user_data, uint32_t timer_id) {
             tx_error(self, t, EMBC_ERROR_TIMED_OUT);
         }
     }
+    tx_resume(self);
     timer_schedule(self);
 }
 
@@ -612,12 +613,12 @@ static void tx_confirmed(struct embc_framer_s * self, struct embc_framer_header_
         struct embc_list_s * item = &t_match->item;
         while (item->prev != &self->tx_buffers_active) {
             item = item->prev;
-            mask = mask << 1;
             struct tx_buf_s * t = embc_list_entry(item, struct tx_buf_s, item);
             struct embc_framer_header_s *hdr = buffer_hdr(t->b);
-            frame_id = (frame_id - 1) & EMBC_FRAMER_ID_MASK;
-            EMBC_ASSERT(frame_id == hdr->frame_id);
-            if ((TX_STATUS_AWAIT_ACK == t->status) && (mask & EMBC_FRAMER_ACK_MASK_CURRENT)) {
+            // ids may skip frames that were already given up
+            uint8_t delta = (frame_id - hdr->frame_id) & EMBC_FRAMER_ID_MASK;
+            uint32_t current = ((uint32_t) mask) << delta;
+            if ((TX_STATUS_AWAIT_ACK == t->status) && (current & EMBC_FRAMER_ACK_MASK_CURRENT)) {
                 t->status = TX_STATUS_ACKED;
             }
         }
@@ -650,6 +651,7 @@ static void handle_ack(struct embc_framer_s *self, struct embc_buffer_s * ack) {
         struct tx_buf_s * t = find_tx(self, frame_id);
         if (t) {
             tx_error(self, t, EMBC_ERROR_MESSAGE_INTEGRITY);
+            tx_resume(self);
             timer_schedule(self);
         } else {
             EMBC_LOGW("handle_ack nack: frame_id=%d not found", (int) frame_id);
-- 
2.43.0


From 80c04e59e643f437b6127c6dfaf0abd182d22238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 34/50] fix: the framer leaves transmit buffers alone while the
 HAL owns them

---
 src/stream/framer.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index 31de83a..d56036b 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -77,6 +77,7 @@ struct tx_buf_s {
     int64_t timeout;
     uint8_t status;
     uint8_t retries;
+    uint8_t hal_owned;  // between hal tx_fn and embc_framer_hal_tx_done()
 };
 
 static inline uint16_t hdr_port_def(struct embc_framer_header_s * hdr) {
@@ -430,11 +431,13 @@ static struct tx_buf_s * find_tx(struct embc_framer_s * self, uint8_t frame_id)
     return 0;
 }
 
-static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, uint8_t status) {
+static void tx_complete_buffer(struct embc_framer_s * self, struct embc_buffer_s * b, bool hal_owned, uint8_t status) {
     struct embc_framer_header_s hdr = *buffer_hdr(b);
     EMBC_LOGD2("tx_complete %p, port=%d, status=%d", (void *) b, (int) hdr.port, (int) status);
     ++self->status.tx_count;
-    embc_buffer_free(b);
+    if (!hal_owned) {  // otherwise, free on embc_framer_hal_tx_done()
+        embc_buffer_free(b);
+    }
     uint16_t port_def = hdr_port_def(&hdr);
     if (hdr.port < EMBC_FRAMER_PORTS) {
         self->port_cbk[hdr.port].tx_done_fn(
@@ -454,7 +457,7 @@ static void tx_complete(struct embc_framer_s * self, struct tx_buf_s * t, uint8_
     t->b = 0;
     t->status = TX_STATUS_EMPTY;
     embc_list_add_tail(&self->tx_buffers_free, &t->item);
-    tx_complete_buffer(self, b, status);
+    tx_complete_buffer(self, b, t->hal_owned, status);
 }
 
 static void tx_resume(struct embc_framer_s * self) {
@@ -490,7 +493,7 @@ static void tx_purge_queued(struct embc_framer_s * self) {
     embc_list_foreach(&self->tx_queue, item) {
         struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
         embc_list_remove(item);
-        tx_complete_buffer(self, b, EMBC_ERROR_ABORTED);
+        tx_complete_buffer(self, b, false, EMBC_ERROR_ABORTED);
     }
 }
 
@@ -576,7 +579,10 @@ static void transmit_tx_buf(struct embc_framer_s * self, struct tx_buf_s * t) {
     t->status = TX_STATUS_TRANSMITTING;
     int64_t current_time = self->hal_cbk.time_get(self->hal_cbk.hal);
     t->timeout = EMBC_FRAMER_TIMEOUT + current_time;
-    self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    if (!t->hal_owned) {  // otherwise, the HAL is still busy with this frame
+        t->hal_owned = 1;
+        self->hal_cbk.tx_fn(self->hal_cbk.hal, t->b);
+    }
     // WARNING: the caller must call timer_schedule() when done
 }
 
@@ -594,6 +600,7 @@ static void transmit_queued(struct embc_framer_s * self) {
         embc_list_add_tail(&self->tx_buffers_active, item);
         t->b = b;
         t->retries = 0;
+        t->hal_owned = 0;
         transmit_tx_buf(self, t);
     }
 }
@@ -936,9 +943,15 @@ void embc_framer_hal_tx_done(
         embc_list_foreach(&self->tx_buffers_active, item) {
             struct tx_buf_s *t = embc_list_entry(item, struct tx_buf_s, item);
             if (t->b == buffer) {
-                t->status = TX_STATUS_AWAIT_ACK;
+                t->hal_owned = 0;
+                if (TX_STATUS_TRANSMITTING == t->status) {
+                    t->status = TX_STATUS_AWAIT_ACK;
+                }
+                return;
             }
         }
+        // the frame completed while the HAL owned its buffer
+        embc_buffer_free(buffer);
     }
 }
 
-- 
2.43.0


From 5a28e726457a7ff382899a5fe9af65475991d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 35/50] fix: framer resynchronization may end with a recovered
 frame

---
 src/stream/framer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/framer.c b/src/stream/framer.c
index d56036b..b2cb477 100644
--- a/src/stream/framer.c
+++ b/src/stream/framer.c
@@ -856,7 +856,9 @@ static void framer_resync(struct embc_framer_s * self, int32_t status) {
         }
     }
 exit:
-    embc_buffer_erase(self->rx_buffer, 0, i);
+    if (i > 0) {  // the buffer may be empty after a recovered frame
+        embc_buffer_erase(self->rx_buffer, 0, i);
+    }
 }
 
 void embc_framer_hal_rx_byte(struct embc_framer_s * self, uint8_t byte) {
-- 
2.43.0


From 2a9c4e9ee1075e81d3e74bbd05662d85e469bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 36/50] fix: the stream sink has one write request outstanding
 at a time

---
 include/embc/stream/async_sink.h | 1 +
 src/stream/async_sink.c          | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/embc/stream/async_sink.h b/include/embc/stream/async_sink.h
index 440c13c..e7dc561 100644
--- a/include/embc/stream/async_sink.h
+++ b/include/embc/stream/async_sink.h
@@ -60,6 +60,7 @@ struct embc_stream_sink_s {
     uint16_t transaction_length;
     uint8_t mode;
     uint8_t overflow;
+    uint8_t requested;
     uint8_t * dst_buffer;
     uint32_t dst_length;
     uint32_t offset;
diff --git a/src/stream/async_sink.c b/src/stream/async_sink.c
index 9675e44..439bca8 100644
--- a/src/stream/async_sink.c
+++ b/src/stream/async_sink.c
@@ -33,6 +33,7 @@ static void send_write_request(struct embc_stream_sink_s * self) {
         t.data.event_write_request_producer_buffer.transactions_max = 1;
     }
     if (self->producer) {
+        self->requested = 1;
         self->producer->send(self->producer, &t);
     }
 }
@@ -62,6 +63,7 @@ static void send(struct embc_stream_consumer_s * self,
             s->mode = 1;
             s->offset = 0;
             s->overflow = 0;
+            s->requested = 0;
             s->producer->send(s->producer, transaction);
             if (s->dst_buffer) {
                 send_write_request(s);
@@ -71,6 +73,7 @@ static void send(struct embc_stream_consumer_s * self,
             break;
         }
         case EMBC_STREAM_IOCTL_WRITE:
+            s->requested = 0;
             if (s->write_fn) {
                 s->write_fn(s->write_user_data, transaction->data.ioctl_write.ptr, transaction->length);
             }
@@ -157,6 +160,8 @@ void embc_stream_sink_receive(
     self->overflow = 0;
     if (send_connect && self->mode) {
         send_event(self, EMBC_STREAM_EVENT_CONNECT);
-        send_write_request(self);
+        if (!self->requested) {  // the transaction buffer is still with the producer
+            send_write_request(self);
+        }
     }
 }
-- 
2.43.0


From 3a0b476f3bf9342127fc565d07b11d081edd5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 37/50] fix: embc_cstr_to_i32s accepts numbers with trailing
 white space and nothing else

---
 src/cstr.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cstr.c b/src/cstr.c
index 71e4226..de80cdb 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -168,6 +168,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
     int32_t v = 0;
     int32_t decimal = -1;  // still on integer part
     int neg = 0;
+    int has_digits = 0;
 
     if (!src) {
         return 0;
@@ -189,11 +190,14 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
 
     while (decimal < exponent) {
         if (*src == '.') {
+            if (decimal >= 0) { // only one decimal point allowed
+                return 1;
+            }
             decimal = 0;
             ++src;
             continue;
         }
-        if ((*src == 0) || (*src == ',')) {
+        if ((*src == 0) || (*src == ',') || _isspace((uint8_t) *src)) {
             if (decimal < 0) {
                 break;
             } else {
@@ -207,6 +211,7 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
             v *= 10;
             if ((*src >= '0') && (*src <= '9')) {
                 v += *src - '0';
+                has_digits = 1;
             } else {
                 return 1;
             }
@@ -214,14 +219,19 @@ int embc_cstr_to_i32s(const char * src, int32_t exponent, int32_t * value) {
         }
     }
 
+    while ((*src >= '0') && (*src <= '9')) { // discard extra digits
+        has_digits = 1;
+        ++src;
+    }
     while (*src) {
-        if ((*src >= '0') && (*src <= '9')) {
-            // discard extra digits
-        } else if (!_isspace((uint8_t) *src)) { // did not parse full string
+        if (!_isspace((uint8_t) *src)) { // did not parse full string
             return 1;
         }
         ++src;
     }
+    if (!has_digits) { // empty string.
+        return 1;
+    }
 
     if (decimal < 0) {
         decimal = 0;
-- 
2.43.0


From e9f141100625cbd630377def84b0c6f3c7e5bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 38/50] fix: embc_cstr_to_u32 rejects a hexadecimal prefix
 without digits

---
 src/cstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cstr.c b/src/cstr.c
index de80cdb..b204ee0 100644
--- a/src/cstr.c
+++ b/src/cstr.c
@@ -105,6 +105,9 @@ int embc_cstr_to_u32(const char * src, uint32_t * value) {
         // hex string
         uint32_t nibble;
         src += 2;
+        if (!*src || _isspace((uint8_t) *src)) { // no digits.
+            return 1;
+        }
         while (*src) {
             char c = *src;
             if ((c >= '0') && (c <= '9')) {
-- 
2.43.0


From d6ff9e2f3314ae99ced000ec3912921f0be42299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 39/50] fix: time conversions to counter ticks accept any
 frequency expression

---
 include/embc/time.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embc/time.h b/include/embc/time.h
index 9116a7b..b102912 100644
--- a/include/embc/time.h
+++ b/include/embc/time.h
@@ -182,7 +182,7 @@ EMBC_CPP_GUARD_START
  * @return The 64-bit time in counter ticks.
  */
 #define EMBC_TIME_TO_COUNTER(x, z) \
-    (( ((int64_t) (x)) * z + \
+    (( ((int64_t) (x)) * (z) + \
        _EMBC_TIME_SIGNUM(z) * EMBC_TIME_SECOND / 2) \
      >> EMBC_TIME_Q)
 
@@ -193,7 +193,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * z + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_UP(x, z) ((((int64_t) (x)) * (z) + EMBC_TIME_SECOND - 1) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to counter ticks, rounded down
@@ -202,7 +202,7 @@ EMBC_CPP_GUARD_START
  * @param z The counter frequency in Hz.
  * @return The 64-bit time in counter ticks.
  */
-#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * z) >> EMBC_TIME_Q)
+#define EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z) ((((int64_t) (x)) * (z)) >> EMBC_TIME_Q)
 
 /**
  * @brief Convert to 32-bit unsigned seconds.
-- 
2.43.0


From d50b8919e8ee6ff580f6ab22aababbc1506689d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 40/50] fix: embc_log_level_str has one name for every level

---
 src/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index b55a655..8e87177 100644
--- a/src/log.c
+++ b/src/log.c
@@ -24,10 +24,10 @@ char const * const embc_log_level_str[EMBC_LOG_LEVEL_ALL + 1] = {
         "CRITICAL",
         "ERROR",
         "WARN",
-        "NOTICE"
+        "NOTICE",
         "INFO",
         "DEBUG",
-        "DEBUG2"
+        "DEBUG2",
         "DEBUG3",
         "ALL"
 };
-- 
2.43.0


From 57f8730ba9301237ab7b3e53b2c33d44ee4a19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 41/50] fix: EMBC_LOG_ALERT logs its own arguments

---
 include/embc/log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/log.h b/include/embc/log.h
index 5edb386..b0642ae 100644
--- a/include/embc/log.h
+++ b/include/embc/log.h
@@ -239,7 +239,7 @@ extern char const embc_log_level_char[EMBC_LOG_LEVEL_ALL + 1];
 /** Log a emergency using printf-style arguments. */
 #define EMBC_LOG_EMERGENCY(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_EMERGENCY, __VA_ARGS__)
 /** Log a alert using printf-style arguments. */
-#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, format, __VA_ARGS__)
+#define EMBC_LOG_ALERT(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_ALERT, __VA_ARGS__)
 /** Log a critical failure using printf-style arguments. */
 #define EMBC_LOG_CRITICAL(...)  _EMBC_LOG_DISPATCH(EMBC_LOG_LEVEL_CRITICAL, __VA_ARGS__)
 /** Log an error using printf-style arguments. */
-- 
2.43.0


From bdf32ddd71bc68019bd8bbb09de510c3ca95a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 42/50] fix: EMBC_ROUND_UP_TO_MULTIPLE accepts any expression
 for the multiple

---
 include/embc/cdef.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index af10b83..497f4bc 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -179,7 +179,7 @@
  * WARNING: The values for x and m MUST NOT have any side effects
  * as the parameters occur multiple times in the macro!
  */
-#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * (m - 1) )) / m) * m)
+#define EMBC_ROUND_UP_TO_MULTIPLE(x, m) (( ((x) + ( EMBC_SIGNUM(x) * ((m) - 1) )) / (m)) * (m))
 
 /**
  * @brief Find the container instance given a member pointer.
-- 
2.43.0


From 547da8d9a5be7f4544cb202cc124369bdf774a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 43/50] fix: EMBC_CONTAINER_OF accepts any pointer expression

---
 include/embc/cdef.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embc/cdef.h b/include/embc/cdef.h
index 497f4bc..32b82da 100644
--- a/include/embc/cdef.h
+++ b/include/embc/cdef.h
@@ -190,7 +190,7 @@
  * @return The pointer to the container.
  */
 #define EMBC_CONTAINER_OF(ptr, type, member) \
-    ( (type *) ((char *) ptr - offsetof(type, member)) )
+    ( (type *) ((char *) (ptr) - offsetof(type, member)) )
 
 
 #ifdef __cplusplus
-- 
2.43.0


From d8b76e31c67872bf21c372e7eef657265298f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 44/50] fix: bind the Python buffers to the allocator functions
 that exist

---
 py/embc/memory/buffer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 668f8df..47255ba 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -58,13 +58,13 @@ class embc_buffer_s(Structure):
 
 
 
-# struct embc_buffer_allocator_s * embc_buffer_initialize(embc_size_t const * sizes, embc_size_t length);
-initialize = _dll.embc_buffer_initialize
+# struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
+initialize = _dll.embc_buffer_allocator_new
 initialize.restype = c_void_p
 initialize.argtypes = [POINTER(c_size_t), c_size_t]
 
-# void embc_buffer_finalize(struct embc_buffer_allocator_s * self);
-finalize = _dll.embc_buffer_finalize
+# void embc_buffer_allocator_finalize(struct embc_buffer_allocator_s * self);
+finalize = _dll.embc_buffer_allocator_finalize
 finalize.restype = None
 finalize.argtypes = [c_void_p]
 
-- 
2.43.0


From e6b9cb35908cc81e926a1a37990a32cf1be1e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 45/50] fix: match the Python buffer structure and free to the
 C library

---
 py/embc/memory/buffer.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 47255ba..7315540 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -3,12 +3,16 @@
 import os
 import ctypes
 from ctypes import cdll, Structure, POINTER, pointer, cast, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, CFUNCTYPE
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from ..collections.list import embc_list_s
 
 
+class embc_buffer_manager_s(Structure):
+    pass
+
+
 class embc_buffer_s(Structure):
     _fields_ = [
         ('data', POINTER(c_uint8)),
@@ -17,6 +21,8 @@ class embc_buffer_s(Structure):
         ('length', c_uint16),
         ('reserve', c_uint16),
         ('buffer_id', c_uint16),
+        ('flags', c_uint16),
+        ('manager', POINTER(embc_buffer_manager_s)),
         ('item', embc_list_s),
     ]
 
@@ -54,9 +60,13 @@ class embc_buffer_s(Structure):
         erase(self, start, end)
 
     def free(self):
-        free(self)
+        free(pointer(self))
 
 
+# void (*free)(struct embc_buffer_manager_s const * self, struct embc_buffer_s * buffer);
+embc_buffer_manager_s._fields_ = [
+    ('free', CFUNCTYPE(None, POINTER(embc_buffer_manager_s), POINTER(embc_buffer_s))),
+]
 
 # struct embc_buffer_allocator_s * embc_buffer_allocator_new(embc_size_t const * sizes, embc_size_t length);
 initialize = _dll.embc_buffer_allocator_new
@@ -73,10 +83,10 @@ alloc = _dll.embc_buffer_alloc
 alloc.restype = POINTER(embc_buffer_s)
 alloc.argtypes = [c_void_p, c_size_t]
 
-# void embc_buffer_free(struct embc_buffer_s * buffer);
-free = _dll.embc_buffer_free
-free.restype = None
-free.argtypes = [POINTER(embc_buffer_s)]
+# static inline void embc_buffer_free(struct embc_buffer_s * buffer);
+def free(buffer):
+    manager = buffer[0].manager
+    manager[0].free(manager, buffer)
 
 # void embc_buffer_write(struct embc_buffer_s * buffer,
 #                        void const * data,
-- 
2.43.0


From b58c5fc609b88b2e51309731f950057e2498220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 46/50] fix: refuse payloads that do not fit a frame in the
 Python framer

---
 py/embc/stream/framer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/embc/stream/framer.py b/py/embc/stream/framer.py
index 1587805..7ad99c0 100644
--- a/py/embc/stream/framer.py
+++ b/py/embc/stream/framer.py
@@ -20,6 +20,7 @@ RX_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, POINTER(embc_buffe
 TX_DONE_FN = CFUNCTYPE(None, c_void_p, c_uint8, c_uint8, c_uint16, c_int32)
 MAX_RETRIES = 16
 TIMER_ID = 42
+PAYLOAD_MAX_SIZE = 240  # EMBC_FRAMER_PAYLOAD_MAX_SIZE
 
 
 class Port0:
@@ -268,6 +269,8 @@ class Framer:
 
     def send(self, port, message_id, port_def, payload):
         payload_len = len(payload)
+        if payload_len > PAYLOAD_MAX_SIZE:
+            raise ValueError('payload too long: %d > %d' % (payload_len, PAYLOAD_MAX_SIZE))
         msg_char = ctypes.create_string_buffer(payload)
         msg = cast(msg_char, POINTER(c_uint8))
         send_payload(self.framer, port, message_id, port_def, msg, payload_len)
-- 
2.43.0


From 022b46c623109a5ae89df78c94abf749b31574fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 47/50] fix: return the result of
 embc_buffer_write_str_truncate in Python

---
 py/embc/memory/buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/embc/memory/buffer.py b/py/embc/memory/buffer.py
index 7315540..05d41b4 100644
--- a/py/embc/memory/buffer.py
+++ b/py/embc/memory/buffer.py
@@ -3,7 +3,7 @@
 import os
 import ctypes
 from ctypes import cdll, Structure, POINTER, pointer, cast, \
-    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, CFUNCTYPE
+    c_uint64, c_uint32, c_uint16, c_uint8, c_void_p, c_size_t, c_char_p, c_bool, CFUNCTYPE
 from ctypes.wintypes import DWORD, HANDLE, BOOL, LPVOID, LPWSTR
 from embc.lib import dll as _dll
 from ..collections.list import embc_list_s
@@ -112,7 +112,7 @@ write_str.argtypes = [POINTER(embc_buffer_s), c_char_p]
 # bool embc_buffer_write_str_truncate(struct embc_buffer_s * buffer,
 #                                     char const * str);
 write_str_truncate = _dll.embc_buffer_write_str_truncate
-write_str_truncate.restype = None
+write_str_truncate.restype = c_bool
 write_str_truncate.argtypes = [POINTER(embc_buffer_s), c_char_p]
 
 # void embc_buffer_write_u8(struct embc_buffer_s * buffer, uint8_t value);
-- 
2.43.0


From 76745821cb0a33a4071c26daa3d95615d06bd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 48/50] fix: match ping responses with the pings that still
 wait for one

---
 py/bin/framer_qual.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/bin/framer_qual.py b/py/bin/framer_qual.py
index 7159439..b68c81b 100644
--- a/py/bin/framer_qual.py
+++ b/py/bin/framer_qual.py
@@ -183,10 +183,14 @@ class PingQueue:
     def _ping_rx_resync(self, message_id, data):
         for idx in range(len(self._queue)):
             msg = self._queue[idx]
+            if msg.response_received:
+                continue
             if msg.message_id == message_id and msg.payload == data:
                 log.info('resync message_id=%d to index %d', message_id, idx)
-                self._frames_missing += idx
-                del self._queue[:idx]
+                # frames that have their response only wait for tx_done
+                keep = [m for m in self._queue[:idx] if m.response_received]
+                self._frames_missing += idx - len(keep)
+                self._queue[:idx] = keep
                 return msg
         log.warning('rx resync failed message_id=%d (frame from previous ping session?)',
                     message_id)
@@ -196,7 +200,7 @@ class PingQueue:
         if 0 == self._rx_pending_count(): # error
             log.warning("rx ping response %d, but not expected" % message_id)
             return
-        msg = self._queue[0]
+        msg = [m for m in self._queue if not m.response_received][0]
         if msg.message_id != message_id:
             log.debug('rx ping response message_id mismatch: expected %d != received %d',
                       msg.message_id, message_id)
-- 
2.43.0


From 883c4189bd9a2f62927dca58bb8e63588d15a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 49/50] fix: read the buffer messages as the library prints
 them in the log checker

---
 py/bin/buffer_log_check.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/py/bin/buffer_log_check.py b/py/bin/buffer_log_check.py
index 474d4ef..8ed1a33 100644
--- a/py/bin/buffer_log_check.py
+++ b/py/bin/buffer_log_check.py
@@ -6,6 +6,7 @@ Check the log files for buffer alloc/free pairs.
 """
 
 import argparse
+import re
 import sys
 
 
@@ -28,8 +29,9 @@ class Alloc:
         return '%s: alloc on line %s, free on line %s' % (self.ptr, self.alloc_line, self.free_line)
 
 
-ALLOC = 'embc_buffer_alloc'
-FREE = 'embc_buffer_free'
+# The messages in memory/buffer.c; embc_buffer_alloc_unsafe may return NULL.
+ALLOC = re.compile(r'embc_buffer_alloc(?:_unsafe)? (?!(?:0x)?0+\b)(\w+)')
+FREE = re.compile(r'embc_buffer_free_\(\w+, (\w+)\)')
 
 
 def run():
@@ -39,9 +41,9 @@ def run():
     line_num = 0
     for line in args.logfile:
         line_num += 1
-        alloc_idx = line.find(ALLOC)
-        if alloc_idx >= 0:
-            ptr = line[alloc_idx + len(ALLOC) + 1:-1]
+        match = ALLOC.search(line)
+        if match:
+            ptr = match.group(1)
             b = buffers.get(ptr)
             if b is not None:
                 print('line %d: alloc without free: %s' % (line_num, b))
@@ -49,9 +51,9 @@ def run():
             buffers[ptr] = b
             ptr_history[ptr] = b
             continue
-        free_idx = line.find(FREE)
-        if free_idx >= 0:
-            ptr = line[free_idx + len(FREE) + 1:-1]
+        match = FREE.search(line)
+        if match:
+            ptr = match.group(1)
             b = buffers.get(ptr)
             if b is None:
                 b = ptr_history.get(ptr)
-- 
2.43.0


From 5861f57d3b3ea04b599634f79fa6cf9647ee3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 50/50] fix: remember the line of the free in the log checker

---
 py/bin/buffer_log_check.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/bin/buffer_log_check.py b/py/bin/buffer_log_check.py
index 8ed1a33..adb39cc 100644
--- a/py/bin/buffer_log_check.py
+++ b/py/bin/buffer_log_check.py
@@ -59,6 +59,7 @@ def run():
                 b = ptr_history.get(ptr)
                 print('line %d: free without alloc: %s' % (line_num, b))
             else:
+                b.free_line = line_num
                 del buffers[ptr]
             continue
     if buffers:
-- 
2.43.0

