From 652702d7198b87564b6b98bfd94dc84bd899a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 01/40] fix: circular_buf_size counts one element too many on a
 full buffer

---
 gel/collections/circular_buffer.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..cae8a14 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,19 +108,14 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
+    size_t tail = cbuf->tail;
+    size_t head = cbuf->head;
 
-    int tail = cbuf->tail;
-    int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    if (head >= tail) {
+        return head - tail;
+    } else {
+        return cbuf->bufsize + head - tail;
     }
-
-    return size;
 }
 
 size_t circular_buf_capacity(circular_buf_t *cbuf) {
-- 
2.43.0


From 9d1200acc6cb63f86563fea8cc7d7bbb08e6f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/40] fix: circular_buf_puts could fill a wrapped buffer up
 to the tail, making it look empty

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index cae8a14..fb688f6 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -161,7 +161,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From 0166949cae99042c8b21d8d6a2306ad3c7717463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 03/40] fix: circular_buf_puts livelocks when the consumer
 frees space during the call

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index fb688f6..a6408d6 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -152,9 +152,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        tail = cbuf->tail;     // The consumer thread may be freeing up space in the meantime
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From 382948fdeb2b0c88a4347291af921c542841da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 04/40] fix: queue count is wrong once the write index has
 wrapped around

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 98d6e2c4b63f4db7614a01d1b924ec32075099d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 05/40] fix: stack peek reads past the top element

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From 9f0f71c5bd350213191497060b47ed187b1080f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 06/40] fix: event log window size overflows for very large
 event numbers

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 8bd1525c21ae3f5b2a32b71bb42f95cf057aa3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 07/40] fix: event log passes a read error in the wrapped part
 off as a count

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From 07fd3e9dd9e7b0559d4a7ed8ae8ab0331d7f1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 08/40] fix: wear leveling loses the last write when it went to
 the last block of the page

---
 gel/wearleveling/wearleveling.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..cf49eb3 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -116,11 +116,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
-    // Return the index of the last active marker
+    // Return the index of the last active marker; if all the markers are consecutive it is the last block of the page
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From bde9dd12f1eb29e96ff6c2ed2d70912f468981de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 09/40] fix: wear leveling moves to the next block even if
 writing it failed

---
 gel/wearleveling/wearleveling.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index cf49eb3..4de1066 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,16 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t next_marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  next_block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(next_block, next_marker, buffer, len))) {
+            return res;
+        }
+
+        // Only move on to the new block once it has been successfully written
+        wlm->last_marker       = next_marker;
+        wlm->last_active_block = next_block;
     }
     return 0;
 }
-- 
2.43.0


From d7516b9b9f367332744ed103720d2bacd77bbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 10/40] fix: wear leveling initialisation uses a device error
 code as block index

---
 gel/wearleveling/wearleveling.c | 22 +++++++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 4de1066..aa3d2e2 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker);
 
 
 /**
@@ -77,16 +77,18 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, something else otherwise (the memory should not be used until it is successfully
+ * initialized)
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    return search_last(wlm, &wlm->last_active_block, &wlm->last_marker);
 }
 
 
@@ -94,12 +96,17 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_block Index of the last used block
+ * @param last_marker Marker of the last used block
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker) {
     uint8_t marker;
     int     err;
 
+    *last_block  = 0;
+    *last_marker = 0;
+
     // start from 0 and move on
     if ((err = wlm->read_marker(0, last_marker))) {
         return err;
@@ -122,6 +129,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // Return the index of the last active marker; if all the markers are consecutive it is the last block of the page
-    return i - 1;
+    // The index of the last active marker; if all the markers are consecutive it is the last block of the page
+    *last_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From ed8424828e0d843f1281992cc812858104ae6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 11/40] fix: stepping a parameter wraps around when the result
 does not fit its type

---
 gel/parameter/parameter.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..048ee0f 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -42,6 +42,29 @@
 
 
 #define APPLY_OPERATOR(p, TYPE, name, mod)                                                                             \
+    {                                                                                                                  \
+        TYPE    *var   = (TYPE *)p.pointer;                                                                            \
+        TYPE     min   = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                              \
+        TYPE     max   = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                              \
+        TYPE     newv  = *var;                                                                                         \
+        int      minus = (p.step.name < 0) != ((mod) < 0);                                                             \
+        uint64_t step  = p.step.name < 0 ? 0 - (uint64_t)p.step.name : (uint64_t)p.step.name;                          \
+        uint64_t times = (mod) < 0 ? 0 - (uint64_t)(mod) : (uint64_t)(mod);                                            \
+        uint64_t delta = 0;                                                                                            \
+        /* A result that does not fit the type is out of range as well */                                              \
+        int res = __builtin_mul_overflow(step, times, &delta) ||                                                       \
+                  (minus ? __builtin_sub_overflow(*var, delta, &newv) : __builtin_add_overflow(*var, delta, &newv)) || \
+                  CHECK_RANGE_AGAINST(p, newv, TYPE, name) != 0;                                                       \
+        if (res != 0 && mod > 0)                                                                                       \
+            *var = min;                                                                                                \
+        else if (res != 0 && mod < 0)                                                                                  \
+            *var = max;                                                                                                \
+        else                                                                                                           \
+            *var = newv;                                                                                               \
+    }
+
+
+#define APPLY_OPERATOR_FLOAT(p, TYPE, name, mod)                                                                       \
     {                                                                                                                  \
         TYPE *var  = (TYPE *)p.pointer;                                                                                \
         TYPE  min  = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                  \
@@ -330,12 +353,12 @@ int parameter_operator(parameter_handle_t *handle, int mod) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                APPLY_OPERATOR((*handle), float, f, mod);
+                APPLY_OPERATOR_FLOAT((*handle), float, f, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                APPLY_OPERATOR((*handle), double, d, mod);
+                APPLY_OPERATOR_FLOAT((*handle), double, d, mod);
                 break;
 #endif
         }
-- 
2.43.0


From ca10317bda3ffc6a7b8a26fd738a2a7945a46182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 12/40] fix: declaration of 64 bit parameters truncates limits,
 default and step to 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From 4b8412bc23a30c57c2aaf0ff928c6d2cb74b5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 13/40] fix: validation of parameters accepts a value that is
 not a number

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 048ee0f..5803615 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -35,7 +35,7 @@
         int   res = 0;                                                                                                 \
         if (*var > max)                                                                                                \
             res = 1;                                                                                                   \
-        else if (*var < min)                                                                                           \
+        else if (!(*var >= min)) /* also if it is not a number */                                                      \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
-- 
2.43.0


From acefb6d245a9604723f888585153bcca58da0704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 14/40] fix: parameter count leaves out the parameters with
 free access

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 5803615..be9d669 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -310,7 +310,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From 9c080060928aa065d2b7c68d599272c339bd0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 15/40] fix: negative 8 bit parameters are converted to
 positive long values

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index be9d669..034655d 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -170,7 +170,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 0f2ea303bc63b2c683cdb0825f64a7949cbfc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 16/40] fix: number of values of a parameter overflows for wide
 ranges

---
 gel/parameter/parameter.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 034655d..2204a2c 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -81,6 +81,15 @@
 
 
 #define GET_RANGE(p, TYPE, name)                                                                                       \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        /* The difference may not fit the type */                                                                      \
+        (size_t) max - (size_t)min + 1;                                                                                \
+    })
+
+
+#define GET_RANGE_FLOAT(p, TYPE, name)                                                                                 \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
@@ -558,12 +567,12 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_FLOAT:
-                len = GET_RANGE((*handle), float, f);
+                len = GET_RANGE_FLOAT((*handle), float, f);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_DOUBLE:
-                len = GET_RANGE((*handle), double, d);
+                len = GET_RANGE_FLOAT((*handle), double, d);
                 break;
 #endif
         }
-- 
2.43.0


From 4e838b318a2b0188ac8aeaa880e02da577e82c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 17/40] fix: time comparisons ignore the wrap of timestamp
 types other than unsigned long

---
 gel/timer/timecheck.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..ffa65aa 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,8 +24,12 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+// The difference has to be judged in the width of the timestamp, whatever it is: (b - a) is negative if it is bigger than
+// half of the range
+#define time_after(a, b)                                                                                               \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((timestamp_t)((b) - (a)) > ((timestamp_t)-1) / 2))
+#define time_after_or_equal(a, b)                                                                                      \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((timestamp_t)((b) - (a)-1) >= ((timestamp_t)-1) / 2))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
@@ -41,13 +45,13 @@ static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp
 
 static inline __attribute__((always_inline)) int is_loosely_expired(timestamp_t start, timestamp_t current,
                                                                     timestamp_t delay) {
-    return time_after_or_equal(current, start + delay);
+    return time_after_or_equal(current, (timestamp_t)(start + delay));
 }
 
 
 static inline __attribute__((always_inline)) int is_strictly_expired(timestamp_t start, timestamp_t current,
                                                                      timestamp_t delay) {
-    return time_after(current, start + delay);
+    return time_after(current, (timestamp_t)(start + delay));
 }
 
 
-- 
2.43.0


From 44609b22c3e62afeb429e0f3c27ed95fff1583ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 18/40] fix: clearing the changes of a watcher leaves a noticed
 delayed change pending

---
 gel/data_structures/watcher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/data_structures/watcher.c b/gel/data_structures/watcher.c
index 089a0f5..a0a01a4 100644
--- a/gel/data_structures/watcher.c
+++ b/gel/data_structures/watcher.c
@@ -43,11 +43,12 @@ void watcher_clear_changes(watcher_t *list, unsigned long timestamp) {
         if (memcmp((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size)) {
             if (list[i].delay > 0) {
                 list[i].timestamp = timestamp;
-                list[i].moved     = 0;
             }
 
             memcpy((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size);
         }
+        // Also forget a change that was already noticed and is waiting for its delay
+        list[i].moved = 0;
         i++;
     }
 }
-- 
2.43.0


From ea99447dbc5a1427d6d0e97760f4816784acb965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 19/40] fix: setting a debounce filter keeps the countdown of
 the earlier samples

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..4ae2141 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 17ae8e248c40292b46cbbca5b65803c8b99e72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 20/40] fix: pulse filter starts with an uninitialised
 countdown

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From 559117c87d91f0537a9c0ee66cdae15a62b66f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 21/40] fix: keypad keeps reporting a key as down if it was let
 go while another key was being released

---
 gel/keypad/keypad.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gel/keypad/keypad.c b/gel/keypad/keypad.c
index 2c8ed7d..cf87de3 100755
--- a/gel/keypad/keypad.c
+++ b/gel/keypad/keypad.c
@@ -34,6 +34,10 @@ keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned
             event.code = keys[i].code;
             break;
         }
+        // If the key was sampled while another one was being released it is not down anymore
+        else {
+            keys[i]._state.value = 0;
+        }
         i++;
     }
 
-- 
2.43.0


From db90138bc9fd7f509c20be76731f722a3f865143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 22/40] fix: stopping a stopped stopwatch is not refused as
 documented

---
 gel/timer/stopwatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.c b/gel/timer/stopwatch.c
index edac4ef..802dfe3 100644
--- a/gel/timer/stopwatch.c
+++ b/gel/timer/stopwatch.c
@@ -51,10 +51,12 @@ int stopwatch_start(stopwatch_t *timer, unsigned long timestamp) {
 
 
 int stopwatch_stop(stopwatch_t *timer) {
+    int result = timer->state == TIMER_STOPPED ? -1 : 0;     // Cannot stop a stopped timer
+
     timer->starting_time = 0;
     timer->elapsed_time  = 0;
     timer->state         = TIMER_STOPPED;
-    return 0;
+    return result;
 }
 
 
-- 
2.43.0


From 1b4237839ec41b87de90453bc6836494fe465e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 23/40] fix: GEL_TIMER_NULL names a field that does not exist

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From dfaa0dcfb9832ffaf21b014173da45601ded4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 24/40] fix: automatic reload starts a timer again even if it
 was stopped or paused

---
 gel/timer/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/timer/timer.c b/gel/timer/timer.c
index 9c13e58..3524677 100644
--- a/gel/timer/timer.c
+++ b/gel/timer/timer.c
@@ -71,7 +71,8 @@ uint8_t gel_timer_manage_callback(gel_timer_t *timer, unsigned long timestamp, v
     if (stopwatch_is_timer_reached(&timer->stopwatch, timestamp)) {
         timer->callback(timer, user_pointer, timer->arg);
         if (timer->autoreload) {
-            stopwatch_restart(&timer->stopwatch, timestamp);
+            // Keep the state, the timer might be paused or it could have been stopped by the callback
+            gel_timer_reset(timer, timestamp);
         } else {
             stopwatch_stop(&timer->stopwatch);
         }
-- 
2.43.0


From 3c952e5799c45ad639604848f466b5c464c4c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 25/40] fix: scheduler does not compile with dynamic entries

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..56c8f0b 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..34508df 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -2,6 +2,7 @@
 #define SCHEDULER_H_INCLUDED
 
 #include <stdint.h>
+#include <stddef.h>
 #include <sys/time.h>
 #include <time.h>
 
@@ -36,8 +37,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From 51b113f92b7cdf0e8ce8fd101d1a40828d40d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 26/40] fix: remaining duration of a schedule is a day too long
 past midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 56c8f0b..cc4b502 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -225,6 +225,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // Inverted schedule, already beyond midnight
+    if (end > seconds_in_day && current < end - seconds_in_day && current < entry->start_second) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 201073e3bb126e7ab9240133cf98c35eb07153d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 27/40] fix: disabled schedule entries are counted as active

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index cc4b502..6879e07 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -88,7 +88,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From ed478f07646d3d53c027d75a1a7def19c7d7ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 28/40] fix: values of schedule entries are truncated to 8 bits
 when compared

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 6879e07..5b65a1c 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -114,7 +114,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From df99cec373897d4994ac97e5f233dc5c9588aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 29/40] fix: overlap of schedule entries that go beyond
 midnight is not found

---
 gel/scheduler/scheduler.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 5b65a1c..e824695 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -17,6 +17,7 @@
 static unsigned long to_seconds(uint8_t hour, uint8_t minute, uint8_t seconds);
 static uint8_t       is_day_included(uint8_t days, uint8_t today);
 static unsigned long total_week_timespan(scheduler_entry_t *entry);
+static uint8_t       is_instant_included(uint32_t instant, const scheduler_entry_t *entry);
 
 
 static const uint32_t seconds_in_day = 60UL * 60UL * 24UL;
@@ -141,7 +142,7 @@ int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info
 
 
 size_t scheduler_are_there_overlapping_entries(scheduler_t *scheduler, const scheduler_entry_t *entry) {
-#define INCLUDED(instant, entry) (instant >= entry->start_second && instant <= entry->end_second)
+#define INCLUDED(instant, entry) is_instant_included(instant, entry)
     size_t found = 0;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
@@ -309,3 +310,11 @@ static unsigned long total_week_timespan(scheduler_entry_t *entry) {
 
     return scheduler_get_entry_duration(entry) * num_days;
 }
+
+
+static uint8_t is_instant_included(uint32_t instant, const scheduler_entry_t *entry) {
+    // Either of the two might go beyond midnight, thus compare the instant on the same day and on those around it
+    return (instant >= entry->start_second && instant <= entry->end_second) ||
+           (instant + seconds_in_day >= entry->start_second && instant + seconds_in_day <= entry->end_second) ||
+           (instant >= seconds_in_day + entry->start_second && instant <= seconds_in_day + entry->end_second);
+}
-- 
2.43.0


From 0c3dfd522cf7ca92d66a0cfc93f6123532201f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 30/40] fix: serializer macros capture variables called tmp and
 size

---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..1366578 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t _gel_tmp;                                                                                             \
+        size_t   _gel_size = deserialize_uint16_be(&_gel_tmp, (buffer));                                               \
+        (var)         = _gel_tmp;                                                                                      \
+        _gel_size;                                                                                                     \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t _gel_tmp;                                                                                             \
+        size_t   _gel_size = deserialize_uint32_be(&_gel_tmp, (buffer));                                               \
+        (var)         = _gel_tmp;                                                                                      \
+        _gel_size;                                                                                                     \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t _gel_tmp;                                                                                              \
+        size_t  _gel_size = deserialize_uint8(&_gel_tmp, (buffer));                                                    \
+        (var)        = _gel_tmp;                                                                                       \
+        _gel_size;                                                                                                     \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t _gel_tmp  = (uint16_t)(var);                                                                          \
+        size_t   _gel_size = serialize_uint16_be((buffer), _gel_tmp);                                                  \
+        _gel_size;                                                                                                     \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t _gel_tmp  = (uint8_t)(var);                                                                            \
+        size_t  _gel_size = serialize_uint8((buffer), _gel_tmp);                                                       \
+        _gel_size;                                                                                                     \
     })
 
 
-- 
2.43.0


From 1e09b7e8a70fa5dadd94c7acb7f1a1b12f9401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 31/40] fix: page manager does not compile, its declarations
 are disabled

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From 23ec87ab4f883aa22715f3b99b87c9c064417c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 32/40] fix: page manager forgets the page left when assertions
 are disabled

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..9504ebc 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t res = navigation_stack_push(&pman->page_stack, current);
+        assert(res != PUSH_RESULT_FULL);
+        (void)res;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From ddc01ca9e540dfe25315bade54b8e40b7a9bbc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 33/40] fix: page manager leaves the same page twice after a
 reset that found none

---
 gel/pagemanager/page_manager.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 9504ebc..c048fa4 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -37,13 +37,15 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
+    // There is no page to leave if none was pushed yet or the last reset found none
+    if (pman->initialized && current->close) {
         current->close(current->data);
     }
-    if (current->destroy) {
+    if (pman->initialized && current->destroy) {
         current->destroy(current->data, current->extra);
     }
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,10 +78,11 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
+    // There is no page to leave if none was pushed yet or the last reset found none
+    if (pman->initialized && current->close) {
         current->close(current->data);
     }
-    if (current->destroy) {
+    if (pman->initialized && current->destroy) {
         current->destroy(current->data, current->extra);
     }
     // Deinitialize the stack, we currently have no page
@@ -119,15 +122,17 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
+    // There is no page to leave if none was pushed yet or the last reset found none
+    if (pman->initialized && current->close) {
         current->close(current->data);
     }
-    if (current->destroy) {
+    if (pman->initialized && current->destroy) {
         current->destroy(current->data, current->extra);
     }
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From 70305f331438a98f91953df5888930b64e1fb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 34/40] fix: STRUCT_UPDATE_ARRAY misreads expressions given as
 array or length

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..98899d8 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), (array), sizeof((array)[0]) * (length))
 
 
 typedef struct {
-- 
2.43.0


From fdc915a01a2b7eeb12a23bae22ef8fe4d6a8bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 35/40] fix: line endings of debounce.c changed by an earlier
 fix are restored

---
 gel/debounce/debounce.c | 108 ++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 4ae2141..4ca2496 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    filter->old_input = set;
-    filter->buffered  = set;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 5aa764238a01c6d3bd07957fd4ea904bb101506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 36/40] fix: parameter macros misread a pointer expression when
 they infer the type

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 965981b..993bd71 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -136,7 +136,7 @@
                           type##_CAST(step), (lvl), (udata), (runtime), (arg)})
 
 #define PARAMETER_FULL(ptr, pmin, pmax, min, max, def, step, lvl, udata, runtime, arg)                                 \
-    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*ptr), (ptr), (pmin), (pmax),                                          \
+    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*(ptr)), (ptr), (pmin), (pmax),                                        \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (min)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (max)),  \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (def)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (step)), \
                           (lvl), (udata), (runtime), (arg)})
-- 
2.43.0


From f7b22b54d3be676f4c62ebda7794b68baa05e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 37/40] fix: stopwatch_setngo starts the stopwatch even where
 the statement it stands for is not executed

---
 gel/timer/stopwatch.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.h b/gel/timer/stopwatch.h
index 295a209..9dc7157 100644
--- a/gel/timer/stopwatch.h
+++ b/gel/timer/stopwatch.h
@@ -20,7 +20,11 @@
 
 #define STOPWATCH_NULL  {.starting_time = 0, .elapsed_time = 0, .total_time = 0, .state = TIMER_STOPPED}
 
-#define stopwatch_setngo(timer, duration, timestamp) stopwatch_set(timer, duration); stopwatch_start(timer, timestamp)
+#define stopwatch_setngo(timer, duration, timestamp)                                                                    \
+    do {                                                                                                                \
+        stopwatch_set(timer, duration);                                                                                 \
+        stopwatch_start(timer, timestamp);                                                                              \
+    } while (0)
 
 // Three possible states of a timer
 typedef enum {
-- 
2.43.0


From 685aff07fb428c12488df314b21d1fb889a9d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 38/40] fix: STRUCT_UPDATE records a caller's variable named
 _value

---
 gel/data_structures/struct_update.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 98899d8..4ea39cb 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -21,8 +21,8 @@
  */
 #define STRUCT_UPDATE(object, field, value)                                                                            \
     ({                                                                                                                 \
-        typeof(object.field) _value = value;                                                                           \
-        struct_update_from_data(offsetof(typeof(object), field), &_value, sizeof(object.field));                       \
+        typeof(object.field) _gel_value = value;                                                                       \
+        struct_update_from_data(offsetof(typeof(object), field), &_gel_value, sizeof(object.field));                   \
     })
 
 
-- 
2.43.0


From 2e32ece15e4909ac28cb50dd2ca7a539f326afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 39/40] fix: scheduler map of active entries mixes up entries
 in tables of more than 32

---
 gel/scheduler/scheduler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index e824695..0991810 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -204,7 +204,8 @@ int scheduler_get_first_available_entry(scheduler_t *scheduler) {
 uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info) {
     uint16_t result = 0;
 
-    for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
+    // Only the first 16 entries fit the map
+    for (size_t i = 0; i < NUM_ENTRIES(scheduler) && i < sizeof(result) * 8; i++) {
         result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
     }
 
-- 
2.43.0


From e39f0e4bac4795ef50af186c3f56687363170cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:16 +0000
Subject: [PATCH 40/40] fix: negative limits given as floating expressions are
 lost for wider integer parameters

---
 gel/parameter/parameter.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 993bd71..17c6163 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -73,10 +73,12 @@
 #define _PARAMETER_FIELD_UINT16 u16
 #define _PARAMETER_FIELD_INT16  i16
 #define CAST16(x)               ((uint16_t)(x)&0xFFFF)
+#define CAST16S(x)              ((int16_t)(x))
 #else
 #define _PARAMETER_FIELD_UINT16 u8
 #define _PARAMETER_FIELD_INT16  u8
 #define CAST16(x)               ((uint8_t)(x)&0xFF)
+#define CAST16S(x)              CAST16(x)
 #endif
 
 #if GEL_PARAMETER_MAX_SIZE >= 4
@@ -84,12 +86,14 @@
 #define _PARAMETER_FIELD_INT32  i32
 #define _PARAMETER_FIELD_FLOAT  f
 #define CAST32(x)               ((uint32_t)(x)&0xFFFFFFFF)
+#define CAST32S(x)              ((int32_t)(x))
 #define CASTFLOAT(x)            ((float)(x))
 #else
 #define _PARAMETER_FIELD_UINT32 u8
 #define _PARAMETER_FIELD_INT32  i8
 #define _PARAMETER_FIELD_FLOAT  i8
 #define CAST32(x)               ((uint8_t)(x)&0xFF)
+#define CAST32S(x)              CAST32(x)
 #define CASTFLOAT(x)            ((uint8_t)(x)&0xFF)
 #endif
 
@@ -98,12 +102,14 @@
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
 #define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64S(x)              ((int64_t)(x))
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
 #define _PARAMETER_FIELD_INT64  i8
 #define _PARAMETER_FIELD_DOUBLE i8
 #define CAST64(x)               ((uint8_t)(x)&0xFF)
+#define CAST64S(x)              CAST64(x)
 #define CASTDOUBLE(x)           ((uint8_t)(x)&0xFF)
 #endif
 
@@ -112,11 +118,11 @@
              : (parameter_type_union_t){.u8 = (uint8_t)((uint8_t)x & 0xFF)}, int8_t                                    \
              : (parameter_type_union_t){.i8 = (int8_t)((int8_t)x & 0xFF)}, uint16_t                                    \
              : (parameter_type_union_t){._PARAMETER_FIELD_UINT16 = (uint16_t)CAST16(x)}, int16_t                       \
-             : (parameter_type_union_t){._PARAMETER_FIELD_INT16 = (int16_t)CAST16(x)}, uint32_t                        \
+             : (parameter_type_union_t){._PARAMETER_FIELD_INT16 = (int16_t)CAST16S(x)}, uint32_t                       \
              : (parameter_type_union_t){._PARAMETER_FIELD_UINT32 = (uint32_t)CAST32(x)}, int32_t                       \
-             : (parameter_type_union_t){._PARAMETER_FIELD_INT32 = (int32_t)CAST32(x)}, uint64_t                        \
+             : (parameter_type_union_t){._PARAMETER_FIELD_INT32 = (int32_t)CAST32S(x)}, uint64_t                       \
              : (parameter_type_union_t){._PARAMETER_FIELD_UINT64 = (uint64_t)CAST64(x)}, int64_t                       \
-             : (parameter_type_union_t){._PARAMETER_FIELD_INT64 = (int64_t)CAST64(x)}, float                           \
+             : (parameter_type_union_t){._PARAMETER_FIELD_INT64 = (int64_t)CAST64S(x)}, float                          \
              : (parameter_type_union_t){._PARAMETER_FIELD_FLOAT = CASTFLOAT(x)}, double                                \
              : (parameter_type_union_t){._PARAMETER_FIELD_DOUBLE = CASTDOUBLE(x)})
 
-- 
2.43.0

