From 8f4aa57708b42fefbb7a16e8f830800997b922f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 01/29] fix: RTML_buffer::debug() reads past the end of the
 array

---
 src/circularbuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 636de15..39d0257 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -284,7 +284,7 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
   DEBUGV3("[CONTENT]\n");
   DEBUGV3("----------\n");
-  for (unsigned int idx = 0; idx < size + 2; idx++) {
+  for (unsigned int idx = 0; idx < size; idx++) {
     if (idx % 2 == 0)
       DEBUGV3_APPEND("\n");
     array[idx].debug();
-- 
2.43.0


From a9b07acaeb78a69343ebdbafca44338e73655d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 02/29] fix: a writer reused the buffer's shared state record
 while it was current

Two writers could both take buffer.state_global as scratch space while the page
referred to it.  Each writer now owns both of the records it alternates between.
---
 src/atomic_compat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 5d6797c..ed0f0ff 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -231,6 +231,7 @@ union page_t {
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
+  state_t state_swap;                                                          \
   state_t *stateref = &state;
 
 #define ATOMIC_PUSH(body)                                                      \
@@ -258,8 +259,8 @@ union page_t {
     }                                                                          \
                                                                                \
     if (&state == (state_t *)current_page_content.stateref) {                  \
-      /* current state is in use; use buffer state */                          \
-      stateref = (state_t *)&buffer.state_global;                              \
+      /* current state is in use; use the other one (it is only ours) */       \
+      stateref = (state_t *)&state_swap;                                       \
     } else {                                                                   \
       /* use current state */                                                  \
       stateref = (state_t *)&state;                                            \
-- 
2.43.0


From fb60e6e3edfa78b99797c09ff82bc63cd0de1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 03/29] fix: a push stalled on, or took for complete, an event
 still being stored

The state record published by a push carried a copy of the event, and later
pushes compared it with the slot to tell whether the event had been stored.
An equal event from an earlier round made an incomplete push look complete,
and a slot rewritten since then (or an event never equal to itself) made the
push wait forever.  A flag set once the event is stored replaces the copy, and
the page is reloaded while waiting for it.
---
 src/atomic_compat.h | 23 +++++++++++++----------
 src/writer.h        |  2 ++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index ed0f0ff..13a2601 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -206,9 +206,9 @@ union page_t {
   struct __state {                                                             \
     size_t top;                                                                \
     size_t bottom;                                                             \
-    /* variables that can help to confirm that the last value is ready */      \
+    /* slot of the last event, and whether that event is stored in it yet */   \
     size_t pos;                                                                \
-    event_t event;                                                             \
+    bool ready;                                                                \
   };                                                                           \
                                                                                \
   typedef struct __state state_t
@@ -224,7 +224,7 @@ union page_t {
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-      .top = 0, .bottom = 0, .pos = 0, .event = event_t()};                    \
+      .top = 0, .bottom = 0, .pos = 0, .ready = true};                         \
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
@@ -237,7 +237,6 @@ union page_t {
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
-  typename B::event_t evt;                                                     \
   do {                                                                         \
     if (fail) {                                                                \
       /* do a yield here */                                                    \
@@ -245,14 +244,15 @@ union page_t {
       fail = false;                                                            \
     }                                                                          \
                                                                                \
+  /* give a chance to complete the last push if it is not ready yet */         \
+  complete:                                                                    \
     current_page_content = (page_t)std::atomic_load(&buffer.page);             \
     new_page_content = current_page_content;                                   \
                                                                                \
-  /* give a chance to complete the last push if it is not ready yet */         \
-  complete:                                                                    \
-    buffer.read(evt, ((state_t *)current_page_content.stateref)->pos);         \
     DEBUGV("%lu\n", ((state_t *)current_page_content.stateref)->pos);          \
-    if (!(((state_t *)current_page_content.stateref)->event == evt)) {         \
+    if (!__atomic_load_n(                                                      \
+            &((state_t *)current_page_content.stateref)->ready,                \
+            __ATOMIC_ACQUIRE)) {                                               \
       /* do a yield here */                                                    \
       YIELD();                                                                 \
       goto complete;                                                           \
@@ -273,14 +273,17 @@ union page_t {
                                                                                \
     body;                                                                      \
                                                                                \
-    /* copy remaining state */                                                 \
-    stateref->event = event;                                                   \
+    /* the event is stored after this state is published */                    \
+    stateref->ready = false;                                                   \
                                                                                \
     DEBUG_FRAME();                                                             \
   } while (                                                                    \
       fail = !(std::atomic_compare_exchange_strong(                            \
           &buffer.page, &current_page_content, (update(new_page_content)))));
 
+#define ATOMIC_PUSH_DONE()                                                     \
+  __atomic_store_n(&stateref->ready, true, __ATOMIC_RELEASE)
+
 #else
 
 #warning "Atomic guarantees are not supported!"
diff --git a/src/writer.h b/src/writer.h
index 3ad6ffa..0d70216 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -121,6 +121,7 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_DONE();
 
 #endif
 
@@ -150,6 +151,7 @@ typename B::error_t RTML_writer<B>::push_all(typename B::event_t &event) {
   });
 
   buffer.write(event, top);
+  ATOMIC_PUSH_DONE();
 
 #endif
 
-- 
2.43.0


From 25e9bc048dcf34be763a773f5a0d2202301cb67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 04/29] fix: a reader delivered overwritten or later events as
 AVAILABLE

pull copied the event and only then compared the slot after it, so an event
that had just been replaced was delivered as the one expected, and a pull that
reported READER_OVERFLOW moved on, so that the next one delivered a later event.
A discarded event was still taken for retained until its slot was rewritten.
Both copies are now made first and are good only if the oldest unread event is
then still in a slot in use and not overwritten; an overflow changes nothing.
---
 src/reader.h | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index f2320c6..a10c88b 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -84,6 +84,20 @@ protected:
     return bottom;
   };
 
+  /**
+   * Tells whether the oldest event that was not read yet is in the buffer.
+   *
+   * The slot of a discarded event may remain as it was for a while, hence it
+   * has to be a slot in use that has not been overwritten.
+   */
+  bool held() const {
+    size_t b, t;
+    buffer.state(b, t);
+    return (bottom + buffer.size - b) % buffer.size <
+               (t + buffer.size - b) % buffer.size &&
+           gap() == NO_GAP;
+  };
+
 public:
   typedef B buffer_t;
 
@@ -161,10 +175,17 @@ RTML_reader<B>::pull(typename B::event_t &event) {
   const int delta = 1;
 
   if (length() > delta) {
+    size_t next = bottom + 1 >= buffer.size ? 0 : bottom + 1;
+
     // read in an atomic way
-    if (buffer.read(event, bottom) != buffer.OK)
+    if (buffer.read(event, bottom) != buffer.OK ||
+        buffer.read(event_next, next) != buffer.OK)
       return READ_ERROR;
 
+    // both copies are good if the oldest unread event is still there
+    if (!held())
+      return READER_OVERFLOW;
+
     // update local bottom
     increment_reader_bottom();
 
@@ -172,17 +193,9 @@ RTML_reader<B>::pull(typename B::event_t &event) {
 
     // use last known timestamp (delta bigger than one may help to find the
     // right timestamp)
-    if (buffer.read(event_next, bottom) == buffer.OK) {
-      timestamp = event_next.getTime();
+    timestamp = event_next.getTime();
 
-      if (gap())
-        return READER_OVERFLOW;
-      else
-        return AVAILABLE;
-    } else {
-      decrement_reader_bottom();
-      return READ_ERROR;
-    }
+    return AVAILABLE;
   }
 
   return UNAVAILABLE;
@@ -193,14 +206,14 @@ typename RTML_reader<B>::error_t
 RTML_reader<B>::pop(typename B::event_t &event) {
 
   if (length() > 0) {
-    decrement_reader_top();
-    if (buffer.read(event, top) != buffer.OK)
+    if (buffer.read(event, top == 0 ? buffer.size - 1 : top - 1) != buffer.OK)
       return READ_ERROR;
 
-    if (gap())
+    if (!held())
       return READER_OVERFLOW;
-    else
-      return AVAILABLE;
+
+    decrement_reader_top();
+    return AVAILABLE;
   }
 
   DEBUGV3("pop-> %d (%d,%d)\n", length(), bottom, top);
-- 
2.43.0


From 8c58bec7c5298b0f20328afbcf430bbda557f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 05/29] fix: synchronising missed losses and reported losses
 that had not happened

The answer depended on whether the ring was wrapped: in one case a discarded
next event was not noticed until it was overwritten, in the other a reader that
had missed nothing was told GAP whenever its next event was the oldest or the
newest one, and one that had lost events kept a position ahead of them.  The next event is
retained exactly if it lies between bottom and top and was not overwritten.
---
 src/reader.h | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/reader.h b/src/reader.h
index a10c88b..9a6113a 100644
--- a/src/reader.h
+++ b/src/reader.h
@@ -236,24 +236,12 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
          "timestamp=%lu, (bottom,top)=(%u,%u)\n",
          t < b, b < t, t == b, b, t, ts, ts_t, timestamp, bottom, top);
 
-  if (t < b) {
-    DEBUGV("1-> t < b (with overlap)\n");
-    
-    if (gap() == GAP) {
-      DEBUGV("gap!\n");
-      top = t;
-      bottom = b;
-      timestamp = ts;
-      return GAP;
-    }
-    
-    // update top (no gap found)
-    top = t;
-    return NO_GAP; // SOFT_SYNC
-
-  } else if (b < t) {
-    DEBUGV("2-> b < t (without overlap)\n");
-    if (ts < timestamp && timestamp < ts_t) {
+  if (t != b) {
+    // the next event to read lies between the bottom and the top of the buffer
+    // and has not been overwritten
+    if ((bottom + buffer.size - b) % buffer.size <
+            (t + buffer.size - b) % buffer.size &&
+        gap() == NO_GAP) {
       // update top (no gap found)
       top = t;
 
@@ -261,8 +249,8 @@ typename RTML_reader<B>::gap_error_t RTML_reader<B>::synchronize() {
     } else {
       // reader is out of sync
       top = t;
-      bottom = (b < bottom && b < t) ? bottom : b;
-      timestamp = (b < bottom && b < t) ? timestamp : ts;
+      bottom = b;
+      timestamp = ts;
 
       return GAP; // HARD_SYNC
     }
-- 
2.43.0


From a56c55ab5eeb4c4cfb748e5a6d9acd63323da804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 06/29] fix: assigning a buffer shared the state of the source

The target kept pointing to the source's state record (or to that of one of its
writers), so that operations on one moved the other, destroying the source left
the target with a dangling pointer, and events were copied bytewise.
---
 src/atomic_compat.h  | 14 ++++++++++++++
 src/circularbuffer.h | 10 +++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 13a2601..236d16f 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -60,6 +60,10 @@ typedef unsigned int uint32_t;
   b = _bottom();                                                               \
   t = _top();
 
+#define ATOMIC_PAGE_SET(b, t)                                                  \
+  _bottom() = b;                                                               \
+  _top() = t;
+
 /* Software */
 #elif defined(__riscv) || defined(__arm__) || defined(__i386__) ||             \
     defined(__x86_64__)
@@ -228,6 +232,16 @@ union page_t {
   std::atomic<page_t> page =                                                   \
       ATOMIC_VAR_INIT({(NATIVE_POINTER_TYPE)&state_global})
 
+/* replaces the state by one of our own */
+#define ATOMIC_PAGE_SET(b, t)                                                  \
+  state_t *stateref = &state_global;                                           \
+  stateref->top = t;                                                           \
+  stateref->bottom = b;                                                        \
+  stateref->pos = t;                                                           \
+  stateref->ready = true;                                                      \
+  page_t page_content = (page_t)std::atomic_load(&page);                       \
+  std::atomic_store(&page, (page_t)(update(page_content)));
+
 #define ATOMIC_PAGE_SWAP()                                                     \
   typedef typename B::state_t state_t;                                         \
   state_t state;                                                               \
diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 39d0257..73eeb13 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -296,7 +296,15 @@ template <typename T, size_t N> void RTML_buffer<T, N>::debug() const {
 
 template <typename T, size_t N>
 RTML_buffer<T, N> &RTML_buffer<T, N>::operator=(const RTML_buffer<T, N> &rhs) {
-  MEMCPY(this, &rhs, sizeof(rhs));
+  if (this != &rhs) {
+    size_t b, t;
+    rhs.state(b, t);
+
+    for (size_t idx = 0; idx < size; idx++)
+      array[idx] = rhs.array[idx];
+
+    ATOMIC_PAGE_SET(b, t);
+  }
   return *this;
 }
 
-- 
2.43.0


From d1f57ba53fdae389e3e34ec5af878f054b9b5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 07/29] fix: destroying a writer left the buffer's state
 dangling

The state of the buffer stays in a record inside the writer that pushed last; the
writer now moves it back into the buffer when it is destroyed.
---
 src/atomic_compat.h | 13 +++++++++++++
 src/writer.h        |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index 236d16f..d9ca60e 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -49,6 +49,7 @@ typedef unsigned int uint32_t;
 #define ATOMIC_TYPE()
 #define ATOMIC_PAGE()
 #define ATOMIC_PAGE_SWAP()
+#define ATOMIC_PAGE_RELEASE()
 
 #define ATOMIC(body)                                                           \
   { body }
@@ -248,6 +249,18 @@ union page_t {
   state_t state_swap;                                                          \
   state_t *stateref = &state;
 
+/* leaves the current state in the buffer if it is in one of our records */
+#define ATOMIC_PAGE_RELEASE()                                                  \
+  page_t page_content = (page_t)std::atomic_load(&buffer.page);                \
+  stateref = (state_t *)page_content.stateref;                                 \
+  if (stateref == &state || stateref == &state_swap) {                         \
+    page_t new_page_content = page_content;                                    \
+    buffer.state_global = *stateref;                                           \
+    stateref = &buffer.state_global;                                           \
+    std::atomic_compare_exchange_strong(&buffer.page, &page_content,           \
+                                        (update(new_page_content)));           \
+  }
+
 #define ATOMIC_PUSH(body)                                                      \
   bool fail = false;                                                           \
   page_t current_page_content, new_page_content;                               \
diff --git a/src/writer.h b/src/writer.h
index 0d70216..633865c 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -75,6 +75,11 @@ public:
    */
   RTML_writer(B &buffer);
 
+  /**
+   * Detaches the writer from the Buffer, which no longer depends on it.
+   */
+  ~RTML_writer();
+
   /**
    * push an event to the Buffer.
    *
@@ -95,6 +100,8 @@ RTML_writer<B>::RTML_writer(B &_buffer) : buffer(_buffer) {
   buffer.increment_writer();
 }
 
+template <typename B> RTML_writer<B>::~RTML_writer() { ATOMIC_PAGE_RELEASE(); }
+
 template <typename B>
 typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
 
-- 
2.43.0


From 2944c7c14168097706ae1ea1303ccbab498e7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 08/29] fix: the reported state included an event not stored
 yet, or mixed two states

A push publishes the new state before it stores the event, so that a reader took
the slot of the event for a complete one; and a writer may reuse the state record
while it is being read.
---
 src/atomic_compat.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/atomic_compat.h b/src/atomic_compat.h
index d9ca60e..dbdc564 100644
--- a/src/atomic_compat.h
+++ b/src/atomic_compat.h
@@ -222,10 +222,19 @@ union page_t {
   ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->bottom
 #define _top() ((state_t *)(((page_t)std::atomic_load(&page)).stateref))->top
 
+/* the last event does not belong to the buffer before it is stored */
 #define ATOMIC_TRIPLE(b, t)                                                    \
-  state_t *s = ((state_t *)(((page_t)std::atomic_load(&page)).stateref));      \
-  b = s->bottom;                                                               \
-  t = s->top;
+  page_t current_page_content, last_page_content;                              \
+  current_page_content = (page_t)std::atomic_load(&page);                      \
+  do {                                                                         \
+    last_page_content = current_page_content;                                  \
+    state_t *s = (state_t *)last_page_content.stateref;                        \
+    b = s->bottom;                                                             \
+    t = __atomic_load_n(&s->ready, __ATOMIC_ACQUIRE) ? s->top : s->pos;        \
+    std::atomic_thread_fence(std::memory_order_acquire);                       \
+    current_page_content = (page_t)std::atomic_load(&page);                    \
+  } while (current_page_content.wide_uniqueid !=                               \
+           last_page_content.wide_uniqueid);
 
 #define ATOMIC_PAGE()                                                          \
   state_t state_global = {                                                     \
-- 
2.43.0


From 3b39cd8da50e60620ea996e1859b76e21020624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 09/29] fix: the timestamps of a state could be those of a
 later one

The timestamps are read after the state; if pushes happen in between, the bottom
was reported with the timestamp of an event that replaced it and a reader started
from there skipped retained events.
---
 src/circularbuffer.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/circularbuffer.h b/src/circularbuffer.h
index 73eeb13..5a95df2 100644
--- a/src/circularbuffer.h
+++ b/src/circularbuffer.h
@@ -257,10 +257,19 @@ template <typename T, size_t N>
 typename RTML_buffer<T, N>::error_t
 RTML_buffer<T, N>::state(size_t &b, size_t &t, timespanw &ts,
                          timespanw &ts_t) const {
+  size_t last_b, last_t;
   state(b, t);
 
-  ts = array[b].getTime();
-  ts_t = array[t].getTime();
+  do {
+    last_b = b;
+    last_t = t;
+
+    ts = array[b].getTime();
+    ts_t = array[t].getTime();
+
+    // the timestamps belong to the state if it did not change meanwhile
+    state(b, t);
+  } while (b != last_b || t != last_t);
 
   DEBUGV3("timestamp=[0x%x,0x%x] b=0x%x t=0x%x\n", L(ts >> 32), L(ts), b, t);
 
-- 
2.43.0


From bb189e32db50b4ee96506fe00fd0997aef5490d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 10/29] fix: reading the current event past the end of a trace

With the cursor after the newest event there is no current event, yet whatever
the slot held was given as AVAILABLE (and used to position the cursor).
---
 src/rmtld3/reader.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index 876dc9c..bb60ff7 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -226,8 +226,9 @@ template <typename R, typename P>
 typename R::error_t
 RMTLD3_reader<R, P>::read(typename R::buffer_t::event_t &e) {
 
-  return (R::buffer.read(e, cursor) == R::buffer.OK) ? R::AVAILABLE
-                                                     : R::UNAVAILABLE;
+  return (length() > 0 && R::buffer.read(e, cursor) == R::buffer.OK)
+             ? R::AVAILABLE
+             : R::UNAVAILABLE;
 }
 
 template <typename R, typename P>
-- 
2.43.0


From 3c221b44377dcc4d85346add2dcc89fe71acaac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 11/29] fix: no previous event was found across the wrap of the
 ring

The index is unsigned, so that the slot before slot 0 was never the last one.
---
 src/rmtld3/reader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index bb60ff7..f0f1581 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -252,8 +252,7 @@ RMTLD3_reader<R, P>::read_previous(typename R::buffer_t::event_t &e) {
                 R::length());
   return ((consumed() > 0 &&
            cursor != R::bottom && // [TODO: check this: !(cursor == R::bottom)]
-           (R::buffer.read(e, ((cursor - 1) < 0) ? R::buffer.size - 1
-                                                 : cursor - 1)) ==
+           (R::buffer.read(e, (cursor == 0) ? R::buffer.size - 1 : cursor - 1)) ==
                R::buffer.OK))
              ? R::AVAILABLE
              : R::UNAVAILABLE;
-- 
2.43.0


From 577a88bef7c12605f9d2444533b99e0384b5f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 12/29] fix: positioning a trace backwards stopped one event
 too far

Coming from a later position, set() left the cursor on the event after the one in
force (in-between sampling stepped back to make up for it); from a cursor after the
newest event or behind the oldest it did not find the event at all.
---
 src/rmtld3/formulas.h | 1 -
 src/rmtld3/reader.h   | 5 +++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 66dde65..6f928ad 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -141,7 +141,6 @@ three_valued_type until_less(T &trace, timespan &t) {
 
           size_t store_cursor2 = trace.get_cursor();
           trace.set(t3);
-          trace.decrement_cursor();
           symbol = eval_b(trace, t3, symbol);
           trace.set_cursor(store_cursor2);
         };
diff --git a/src/rmtld3/reader.h b/src/rmtld3/reader.h
index f0f1581..eb20a29 100644
--- a/src/rmtld3/reader.h
+++ b/src/rmtld3/reader.h
@@ -127,11 +127,16 @@ typename R::error_t RMTLD3_reader<R, P>::set(timespan &t) {
 
   typename R::buffer_t::event_t e, ee;
 
+  // the cursor may be after the newest event or behind the oldest
+  if (length() == 0 || length() > R::length())
+    reset();
+
   while (read_previous(e) == R::AVAILABLE && read(ee) == R::AVAILABLE) {
 
     DEBUGV_RMTLD3("--- %lu %lu\n", e.getTime(), ee.getTime());
 
     if (e.getTime() <= t && t < ee.getTime()) {
+      decrement_cursor();
       return R::AVAILABLE;
     }
 
-- 
2.43.0


From 6a281855af6e66a52282f02908dcb4117df194d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 13/29] fix: the connectives could not be applied to one
 another

The macros for conversion, disjunction, conjunction and comparison were not in
parentheses, nor were their operands: b3_and(b3_or(x, y), z) and the like gave wrong
verdicts.
---
 src/rmtld3/rmtld3.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/rmtld3/rmtld3.h b/src/rmtld3/rmtld3.h
index 340175c..20d8206 100644
--- a/src/rmtld3/rmtld3.h
+++ b/src/rmtld3/rmtld3.h
@@ -33,7 +33,7 @@ typedef std::pair<timeabs, bool> duration;
 enum three_valued_type { T_TRUE, T_FALSE, T_UNKNOWN };
 enum four_valued_type { FV_TRUE, FV_FALSE, FV_UNKNOWN, FV_SYMBOL };
 
-#define make_duration(r, b) std::make_pair((timeabs)r, b)
+#define make_duration(r, b) std::make_pair((timeabs)(r), b)
 
 inline duration sum_dur(const duration &lhs, const duration &rhs) {
   return make_duration(lhs.first + rhs.first, lhs.second || rhs.second);
@@ -45,32 +45,33 @@ inline duration mult_dur(const duration &lhs, const duration &rhs) {
 
 // type conversion from three_valued_type to four_valued_type
 #define b3_to_b4(b3)                                                           \
-  (b3 == T_TRUE) ? FV_TRUE : ((b3 == T_FALSE) ? FV_FALSE : FV_UNKNOWN)
+  (((b3) == T_TRUE) ? FV_TRUE : (((b3) == T_FALSE) ? FV_FALSE : FV_UNKNOWN))
 
 // convert four_valued_type into three_valued type
 #define b4_to_b3(b4)                                                           \
-  (b4 == FV_TRUE) ? T_TRUE : ((b4 == FV_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b4) == FV_TRUE) ? T_TRUE : (((b4) == FV_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** OR */
 #define b3_or(b31, b32)                                                        \
-  (b31 == T_TRUE || b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE && b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE || (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE && (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** AND */
 #define b3_and(b31, b32)                                                       \
-  (b31 == T_TRUE && b32 == T_TRUE)                                             \
-      ? T_TRUE                                                                 \
-      : ((b31 == T_FALSE || b32 == T_FALSE) ? T_FALSE : T_UNKNOWN)
+  (((b31) == T_TRUE && (b32) == T_TRUE)                                        \
+       ? T_TRUE                                                                \
+       : (((b31) == T_FALSE || (b32) == T_FALSE) ? T_FALSE : T_UNKNOWN))
 
 /** NOT */
 #define b3_not(b3)                                                             \
-  ((b3 == T_TRUE) ? T_FALSE : ((b3 == T_FALSE) ? T_TRUE : T_UNKNOWN))
+  (((b3) == T_TRUE) ? T_FALSE : (((b3) == T_FALSE) ? T_TRUE : T_UNKNOWN))
 
 /** Relation operator < */
 #define b3_lessthan(n1, n2)                                                    \
-  ((n1.second || n2.second) ? T_UNKNOWN                                        \
-                            : ((n1.first < n2.first) ? T_TRUE : T_FALSE))
+  (((n1).second || (n2).second)                                                \
+       ? T_UNKNOWN                                                             \
+       : (((n1).first < (n2).first) ? T_TRUE : T_FALSE))
 
 #define ASSERT_RMTLD3(l) assert(l)
 
-- 
2.43.0


From d0e3df8bc0662d1b6b8646af65d53d91bf3d2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 14/29] fix: always/eventually at an exact distance concluded
 too early

The event in force at t+b is only known once a later one has been seen:
until then the verdict could still change.
---
 src/rmtld3/formulas.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 6f928ad..d6b2e15 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -209,7 +209,8 @@ three_valued_type eventually_equal(T &trace, timespan &t) {
   trace.set_cursor(c_eventually); // reset the cursor changes during the
                                   // evaluation of the subformula
 
-  return symbol;
+  // the event in force at t + b is known once a later one has been seen
+  return (c_time > b + t) ? symbol : T_UNKNOWN;
 }
 
 /**
-- 
2.43.0


From d7b2f937390cfd8536bfea922f47b94d1100cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 15/29] fix: unbounded eventually was false at the end of the
 trace

Events still to come may satisfy the operand, so the verdict is unknown.
---
 src/rmtld3/formulas.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index d6b2e15..8a989d9 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -245,8 +245,10 @@ three_valued_type eventually_less_unbounded(T &trace, timespan &t) {
     if (symbol != T_FALSE)
       break;
 
-    if (trace.pull(event) != trace.AVAILABLE)
+    if (trace.pull(event) != trace.AVAILABLE) {
+      symbol = T_UNKNOWN; // a later event may still satisfy phi
       break;
+    }
   };
 
   trace.set_cursor(c_eventually); // reset the cursor changes during the
-- 
2.43.0


From 45c84e4ffc3284e24f0dbbd2cac76a0ac296987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:07 +0000
Subject: [PATCH 16/29] fix: until's in-between samples went past the next
 event

The samples were compared with a later and later event, so events were
visited out of order and beyond the bound.
---
 src/rmtld3/formulas.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 8a989d9..05e963d 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -121,7 +121,7 @@ three_valued_type until_less(T &trace, timespan &t) {
       constexpr const int v = std::is_void<S>::value;
       if (v == false) {
         size_t store_cursor = trace.get_cursor();
-        timespan t1, t2, t3 = c_time;
+        timespan t1, t2, t3 = c_time, t_next = 0;
         typename T::buffer_t::event_t e1, e2;
         while (true) {
           trace.increment_cursor();
@@ -134,7 +134,11 @@ three_valued_type until_less(T &trace, timespan &t) {
           t2 = e2.getTime();
           t3 += (t2 - t1);
 
-          if (t3 >= t1)
+          // the samples precede the next event and the end of the interval
+          if (t_next == 0)
+            t_next = t1;
+
+          if (t3 >= t_next || t3 >= b + t)
             break;
 
           DEBUGV_RMTLD3("t1=%d t2=%d t3=%d\n", t1, t2, t3);
-- 
2.43.0


From 69bba2c9e90624f39d1bfb161c08a8fcfad3e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:48 +0000
Subject: [PATCH 17/29] fix: since was unknown when the window was exhausted by
 an older event

The verdict over a window without a witness depended on whether an event
lies exactly on its border.  The past is complete: it is false.
---
 src/rmtld3/formulas.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 05e963d..4b6d8d3 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -391,9 +391,8 @@ three_valued_type since_less(T &trace, timespan &t) {
   trace.set_cursor(c_until); // reset the cursor changes during the evaluation
                              // of the subformula
 
-  return (eval_c.first == FV_SYMBOL)
-             ? ((eval_c.second < t - b) ? T_UNKNOWN : T_FALSE)
-             : b4_to_b3(eval_c.first);
+  // the past is complete: there is nothing left to see
+  return (eval_c.first == FV_SYMBOL) ? T_FALSE : b4_to_b3(eval_c.first);
 }
 
 /**
-- 
2.43.0


From e833e749f80cfa0a48d93cf965d92743af0084ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:11 +0000
Subject: [PATCH 18/29] fix: past operators at an exact distance took the event
 after the one in force

The event in force at t-b is the last one at or before t-b; the evaluation
stopped one event earlier, or at none when the window held no event.
---
 src/rmtld3/formulas.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rmtld3/formulas.h b/src/rmtld3/formulas.h
index 4b6d8d3..2653d62 100644
--- a/src/rmtld3/formulas.h
+++ b/src/rmtld3/formulas.h
@@ -417,9 +417,6 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
     if (c_time == t) /* since semantics is strict and non-matching */
       continue;
 
-    if (t>=b && c_time <= t - b)
-      break;
-
     size_t c = trace.get_cursor();
     DEBUGV_RMTLD3("$compute phi\n");
     symbol = E::eval_phi1(trace, c_time);
@@ -428,6 +425,10 @@ three_valued_type pasteventually_equal(T &trace, timespan &t) {
         c); // reset the cursor changes during the evaluation of the subformula
 
     trace.debug();
+
+    // this event was in force at t - b
+    if (t>=b && c_time <= t - b)
+      break;
   } while (trace.decrement_cursor() == trace.AVAILABLE &&
            trace.read(event) == trace.AVAILABLE);
 
-- 
2.43.0


From 27311dbb9b09c3831147d9b3af1f6ae69da302d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 19/29] fix: durations over a window within one event exceeded
 the window

When the event in force at t outlasts t+b its whole remainder was counted.
---
 src/rmtld3/terms.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rmtld3/terms.h b/src/rmtld3/terms.h
index 9991fc8..44806de 100644
--- a/src/rmtld3/terms.h
+++ b/src/rmtld3/terms.h
@@ -58,10 +58,14 @@ duration duration_term(T &trace, timespan &t) {
 
     // find lower condition
     if (c_time_prev <= t && t < c_time) {
-      acc.first = (c_time - t) * symbol.first;
+      bool within = t + t_upper < c_time; // the event outlasts the interval
+      acc.first = ((within ? t + t_upper : c_time) - t) * symbol.first;
       acc.second = symbol.second;
 
       DEBUGV_RMTLD3("dur lower(%ld)\n", c_time_prev);
+
+      if (within)
+        break;
     }
     // find upper condition
     else if (c_time_prev <= t + t_upper && t + t_upper < c_time) {
-- 
2.43.0


From 5dc7f6f91a85b639674daca54cf52387d93daa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 20/29] fix: the period of a pointer expression was misread

useconds_t2timespec dereferenced only the first operand of its argument.
---
 src/time_compat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_compat.h b/src/time_compat.h
index 71d8559..9a702e3 100644
--- a/src/time_compat.h
+++ b/src/time_compat.h
@@ -219,8 +219,8 @@ typedef timeabs timespanw;
 
 #define useconds_t2timespec(tsp, vsp)                                          \
   do {                                                                         \
-    (vsp)->tv_sec = *tsp / 1000000L;                                           \
-    (vsp)->tv_nsec = (*tsp % 1000000L) * 1000;                                 \
+    (vsp)->tv_sec = *(tsp) / 1000000L;                                         \
+    (vsp)->tv_nsec = (*(tsp) % 1000000L) * 1000;                               \
   } while (0)
 
 #endif //_TIME_COMPAT_H_
-- 
2.43.0


From 0cbdbe940602e7c5cd62ccc7aa0f16bc9903d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:54 +0000
Subject: [PATCH 21/29] fix: two events at one time with different data were
 neither == nor !=

---
 src/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.h b/src/event.h
index 8b06ea1..2b990fc 100644
--- a/src/event.h
+++ b/src/event.h
@@ -315,7 +315,7 @@ template <typename T> bool Event<T>::operator==(Event<T> const &event) const {
 }
 
 template <typename T> bool Event<T>::operator!=(Event<T> const &event) const {
-  return time != event.time;
+  return !(*this == event);
 }
 
 template <typename T> bool Event<T>::operator<(const timespan &ttime) const {
-- 
2.43.0


From b0c43712d871fa49846013a3dd68bc013304e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:05 +0000
Subject: [PATCH 22/29] fix: a task aborted before it was activated never ended

The loop that waits for the activation did not look for ABORT, so joining
a monitor that was disabled before it ran never returned.
---
 src/task_compat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task_compat.h b/src/task_compat.h
index f21fd2c..6b97acd 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -196,6 +196,10 @@ struct task {
               ttask->st = RUNNING;
               break;
             }
+            if (ttask->st == ABORT) {
+              ttask->st = ABORTED;
+              return NULL;
+            }
             nanosleep((const struct timespec[]){{0, 100000L}}, NULL);
           }
 
-- 
2.43.0


From 07aacbf7625264d8e65f07a637b2654c84d6737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 23/29] fix: enabling a running monitor stopped it being
 reported as running

Enabling takes effect once, and no longer revives a monitor that was
disabled.
---
 src/periodicmonitor.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index 7ece78e..da0742a 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -143,8 +143,10 @@ template <char... name> void *RTML_monitor<name...>::loop(void *ptr) {
 
 template <char... name> int RTML_monitor<name...>::enable() {
 
-  if (_task.st != ACTIVATE)
-    _task.st = ACTIVATE;
+  // only once: a running monitor keeps running, a disabled one is over
+  status expected = UNACTIVATE;
+  __atomic_compare_exchange_n(&_task.st, &expected, ACTIVATE, false,
+                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
 
   return P_OK;
 }
-- 
2.43.0


From 825b660396ace572fbfceaaf0d8eb3596dbef010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 24/29] fix: a task activated and aborted at once was never
 aborted

The abort was overwritten when it came between the look at the status and
the change to RUNNING.
---
 src/task_compat.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index 6b97acd..daf0ca3 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -192,11 +192,12 @@ struct task {
 
           // trap to block task start
           for (;;) {
-            if (ttask->st == ACTIVATE) {
-              ttask->st = RUNNING;
+            status expected = ACTIVATE;
+            if (__atomic_compare_exchange_n(&ttask->st, &expected, RUNNING,
+                                            false, __ATOMIC_SEQ_CST,
+                                            __ATOMIC_SEQ_CST))
               break;
-            }
-            if (ttask->st == ABORT) {
+            if (expected == ABORT) {
               ttask->st = ABORTED;
               return NULL;
             }
-- 
2.43.0


From d25866a654bb4a1a402ac407e4846d9953ac7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:09 +0000
Subject: [PATCH 25/29] fix: a task could start before it was activated

Its status was set only after its thread had been created: until then the
thread saw whatever the memory held, ACTIVATE included.
---
 src/task_compat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index daf0ca3..a6ed12b 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -168,15 +168,13 @@ struct task {
 
     DEBUGV_APPEND("\n");
 
-    st = UNACTIVATE;
-
     return 0;
   }
 
   task(char const *id, void *(*loop)(void *), const int prio,
        const int sch_policy, const useconds_t p, void *payload = NULL)
-      : tid(id), period(p), sched_policy(sch_policy), priority(prio), run(loop),
-        run_payload(payload) {
+      : tid(id), period(p), sched_policy(sch_policy), priority(prio),
+        st(UNACTIVATE), run(loop), run_payload(payload) {
     create_task(
         [](void *tsk) -> void * {
           struct task *ttask = (struct task *)tsk;
-- 
2.43.0


From ec3a9dc56dae7c083670e0de6c23522a20ac10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:07 +0000
Subject: [PATCH 26/29] fix: a wake-up without a reason ended a task

pthread_cond_timedwait may return before the time is up; the task left its
loop, still holding the mutex, while reported as running.
---
 src/task_compat.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index a6ed12b..d40f0dc 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -240,11 +240,15 @@ struct task {
                            ttask->tid, L(tmp.tv_sec), tmp.tv_nsec);
             }
 
+            // wait for the release; a wake-up without a reason comes too early
+            int woken;
             pthread_mutex_lock(&ttask->fmtx);
-            pcheck_print(
-                pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next),
-                ETIMEDOUT, break;);
+            do {
+              woken =
+                  pthread_cond_timedwait(&ttask->cond, &ttask->fmtx, &next);
+            } while (woken == P_OK);
             pthread_mutex_unlock(&ttask->fmtx);
+            pcheck_print(woken, ETIMEDOUT, break;);
 
             if (ttask->st == ABORT) {
               ttask->st = ABORTED;
-- 
2.43.0


From f9e2ac779c32200e321bd340d5551213a3d9b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:09 +0000
Subject: [PATCH 27/29] fix: writer.h could not be included for hardware
 synthesis

---
 src/writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer.h b/src/writer.h
index 633865c..005e89c 100644
--- a/src/writer.h
+++ b/src/writer.h
@@ -108,7 +108,8 @@ typename B::error_t RTML_writer<B>::push(typename B::event_t &event) {
   typename B::error_t err;
 
 #if defined(__HW__)
-#error "Please use push_all instead!"
+  // there is no clock; only a use of this function is an error
+  static_assert(sizeof(B) == 0, "Please use push_all instead!");
 #else
   size_t top;
 
-- 
2.43.0


From 9852019cc94b07d4db9fd1ba5f44712e775e4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 28/29] fix: a release could be computed with parts of two
 periods

The period was read twice, for the seconds and for the nanoseconds; when it was
changed in between, the release followed neither the old nor the new one.
---
 src/task_compat.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task_compat.h b/src/task_compat.h
index d40f0dc..89527d4 100644
--- a/src/task_compat.h
+++ b/src/task_compat.h
@@ -218,8 +218,11 @@ struct task {
 
             DEBUGV3_APPEND("period=%luus ", ttask->period);
 
-            // convert useconds_t to struct timespec
-            useconds_t2timespec(&ttask->period, &tmp);
+            // convert useconds_t to struct timespec (read once; it may be changed
+            // meanwhile)
+            const useconds_t period =
+                __atomic_load_n(&ttask->period, __ATOMIC_SEQ_CST);
+            useconds_t2timespec(&period, &tmp);
 
             DEBUGV3_APPEND("period=%lus.%luns ", L(tmp.tv_sec), tmp.tv_nsec);
             DEBUGV3_APPEND("old_next=%lus.%luns ", L(next.tv_sec),
-- 
2.43.0


From eb13152f9c4f03a76f88e2b1bc7e11a270646330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:55 +0000
Subject: [PATCH 29/29] fix: the id of a monitor with a five character name was
 not terminated

---
 src/periodicmonitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/periodicmonitor.h b/src/periodicmonitor.h
index da0742a..1173e53 100644
--- a/src/periodicmonitor.h
+++ b/src/periodicmonitor.h
@@ -71,7 +71,7 @@ protected:
 
 public:
   /** Stores id */
-  const char id[5] = {name...};
+  const char id[sizeof...(name) + 1] = {name..., 0};
 
   /**
    * Instantiates a new monitor with a given period.
-- 
2.43.0

