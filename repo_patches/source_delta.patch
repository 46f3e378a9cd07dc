From 61639e762f325d4744aac56090143df20cb7a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 01/50] fix: sc_map_init() with a capacity above 2^31 created a
 map of capacity zero

---
 map/sc_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..b17cb3c 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,11 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		/* Capacity is not representable as a power of two */          \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From 0f82b48a3c17882ca5460d14d6fb411b6707f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 02/50] fix: sc_map_found() was stale after sc_map_put() failed
 with out of memory

---
 map/sc_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index b17cb3c..04e04d3 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -226,6 +226,7 @@
                                                                                \
 		if (!sc_map_remap_##name(m)) {                                 \
 			m->oom = true;                                         \
+			m->found = false;                                      \
 			return 0;                                              \
 		}                                                              \
                                                                                \
-- 
2.43.0


From c7fcd8de3775d4138aae63dd382acd65cb3cf8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 03/50] fix: sc_queue adds kept failing after an earlier out of
 memory

---
 queue/sc_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..0174056 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,7 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = (q)->elems == NULL;                                 \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From 78604f9f8f6a44c7d0ad4c9fdfabb0d69abc208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 04/50] fix: sc_heap_add() counted the element although out of
 memory

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 08c980de269bba3541e6b8d6c365549aa43d28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 05/50] fix: sc_timer_add() lost or fired timers whose expiry
 does not fit 64 bits

---
 timer/sc_timer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..97d7d41 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -135,6 +135,11 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 	assert(t->list[index].timeout == SC_TIMER_INVALID);
 
 out:
+	// Expiry must not wrap around, SC_TIMER_INVALID marks an empty slot.
+	if (timeout >= SC_TIMER_INVALID - t->timestamp) {
+		timeout = SC_TIMER_INVALID - t->timestamp - 1;
+	}
+
 	t->list[index].timeout = timeout + t->timestamp;
 	t->list[index].type = type;
 	t->list[index].data = data;
-- 
2.43.0


From 21a16048b1616a7fe74647d0b7168ddab7080ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 06/50] fix: sc_timer_add() ignored timestamps that were less
 than a tick apart, timers fired early

---
 timer/sc_timer.c | 11 +++++++++++
 timer/sc_timer.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 97d7d41..b45dd9c 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -44,6 +44,7 @@
 void sc_timer_init(struct sc_timer *t, uint64_t timestamp)
 {
 	*t = (struct sc_timer){
+		.now = timestamp,
 		.timestamp = timestamp,
 	};
 }
@@ -53,6 +54,7 @@ void sc_timer_term(struct sc_timer *t)
 	sc_timer_free(t->list);
 
 	*t = (struct sc_timer){
+		.now = t->now,
 		.timestamp = t->timestamp,
 	};
 }
@@ -114,6 +116,13 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
+	// The wheel lags behind the latest timestamp by less than a tick.
+	const uint64_t lag = t->now - t->timestamp;
+
+	if (timeout < SC_TIMER_INVALID - lag) {
+		timeout += lag;
+	}
+
 	const uint32_t offset = (uint32_t) (timeout / TICK + t->head);
 	const uint32_t pos = offset & (WHEEL_COUNT - 1);
 	uint64_t id;
@@ -176,6 +185,8 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 	uint32_t wheels = (uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT));
 	struct sc_timer_data *item;
 
+	t->now = timestamp;
+
 	if (wheels == 0) {
 		return sc_timer_min(TICK - time, TICK);
 	}
diff --git a/timer/sc_timer.h b/timer/sc_timer.h
index a7605f2..ee6d9c8 100644
--- a/timer/sc_timer.h
+++ b/timer/sc_timer.h
@@ -55,6 +55,7 @@ struct sc_timer_data {
 };
 
 struct sc_timer {
+	uint64_t now;
 	uint64_t timestamp;
 	uint32_t head;
 	uint32_t wheel;
-- 
2.43.0


From 68c59336f6b4e4459b6837e62b33e5b300ccacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 07/50] fix: sc_timer_timeout() lost the wheel position on
 jumps of more than 16 ticks, timers fired late

---
 timer/sc_timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index b45dd9c..1d6d202 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -192,7 +192,7 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 	}
 
 	t->timestamp = timestamp;
-	t->head = (t->head + wheels) & (WHEEL_COUNT - 1);
+	t->head = (uint32_t) (t->head + time / TICK) & (WHEEL_COUNT - 1);
 
 	while (wheels-- > 0) {
 		wheel = t->wheel;
-- 
2.43.0


From f67c2cb1f850b20d25ee28a65b9cee37be0efc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 08/50] fix: sc_timer_timeout() dropped the part of a tick at
 each call, timers fired late

---
 timer/sc_timer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 1d6d202..3a127e0 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -191,7 +191,7 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		return sc_timer_min(TICK - time, TICK);
 	}
 
-	t->timestamp = timestamp;
+	t->timestamp += time - time % TICK;
 	t->head = (uint32_t) (t->head + time / TICK) & (WHEEL_COUNT - 1);
 
 	while (wheels-- > 0) {
@@ -201,7 +201,7 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		for (uint32_t i = 0; i < wheel; i++) {
 			item = &t->list[base + i];
 
-			if (item->timeout <= t->timestamp) {
+			if (item->timeout <= timestamp) {
 				timeout = item->timeout;
 				item->timeout = SC_TIMER_INVALID;
 
@@ -217,5 +217,5 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		head = (head + 1) & (WHEEL_COUNT - 1);
 	}
 
-	return sc_timer_min(TICK - time, TICK);
+	return TICK - time % TICK;
 }
-- 
2.43.0


From c7dba9cea227381a9621d867fd20deee3e523fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 09/50] fix: sc_buf bounds checks wrapped around for huge
 positions and lengths

---
 buffer/sc_buf.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..5066210 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -39,6 +39,11 @@
 
 #define NULL_LEN SC_BUF_MAX
 
+static bool sc_buf_fits(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return len <= end && pos <= end - len;
+}
+
 bool sc_buf_init(struct sc_buf *b, uint64_t cap)
 {
 	void *m = NULL;
@@ -101,8 +106,8 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (!sc_buf_fits(b->wpos, len, b->cap)) {
+		if (b->ref || len > SC_BUF_MAX - b->cap) {
 			goto err;
 		}
 
@@ -253,7 +258,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +274,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +292,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +311,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +330,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +345,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +363,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +383,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +457,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_fits(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +511,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +590,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len >= b->wpos || !sc_buf_fits(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +609,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +622,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From f44b9166944a6e8984431116f3b0ff99b1665fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 10/50] fix: sc_buf_get_str() returned strings without
 terminating zero from corrupt data

---
 buffer/sc_buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 5066210..d4e0a97 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -596,6 +596,11 @@ const char *sc_buf_get_str(struct sc_buf *b)
 	}
 
 	str = (char *) b->mem + b->rpos;
+	if (str[len] != '\0') {
+		b->err |= SC_BUF_CORRUPT;
+		return NULL;
+	}
+
 	b->rpos += len + 1;
 
 	return str;
-- 
2.43.0


From a3fdb0a699185ee8366134131dc387c54ae8513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 11/50] fix: sc_buf_put_fmt() failed when the string ended
 exactly at a growth boundary

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index d4e0a97..02d9714 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -754,7 +754,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From edb3dd98dc2e5310e72378002ff6b3acff5d35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 12/50] fix: sc_buf_shrink() reallocated memory it does not own
 and could grow the buffer

---
 buffer/sc_buf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 02d9714..ae74e8a 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -143,6 +143,9 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (b->ref || len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From df338a89933e4466897c8ba7774760d50ac5dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 13/50] fix: sc_buf_move() to an invalid buffer dropped the
 bytes

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index ae74e8a..c2b3a99 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -253,10 +253,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t wpos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - wpos;
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From b739461be9e644cd8104ee4ae7ec9b86efa46d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 14/50] fix: sc_buf_put_text() left the read position behind
 the write position on failure

---
 buffer/sc_buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index c2b3a99..22ecf36 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -824,6 +824,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
+	sc_buf_set_rpos(b, 0);
 	sc_buf_set_wpos(b, 0);
 }
 
-- 
2.43.0


From 4be54b12888b498cbd179d761b4ed97587b01e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 15/50] fix: sc_buf_put_text() refused text that fits a wrapped
 buffer exactly

---
 buffer/sc_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 22ecf36..a424316 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -790,7 +790,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	va_list va;
 
 	dst = (char *) sc_buf_wbuf(b) - off;
-	quota = sc_buf_quota(b);
+	quota = sc_buf_quota(b) + off;
 
 	va_start(va, fmt);
 	rc = vsnprintf(dst, quota, fmt, va);
@@ -803,12 +803,12 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 
 	wr = (uint64_t) rc;
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + 1)) {
+		if (!sc_buf_reserve(b, wr + 1 - off)) {
 			goto clean_up;
 		}
 
 		dst = (char *) sc_buf_wbuf(b) - off;
-		quota = sc_buf_quota(b);
+		quota = sc_buf_quota(b) + off;
 
 		va_start(va, fmt);
 		rc = vsnprintf(dst, quota, fmt, va);
-- 
2.43.0


From 0697a85ce626cf52fab88aae3e7fad12fea6beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 16/50] fix: sc_str_replace() did not terminate when replacing
 the empty string

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..70b8794 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -371,6 +371,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 		return false;
 	}
 
+	// Nothing to replace.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	meta = sc_str_meta(*str);
 	orig = *str;
 	orig_end = *str + meta->len;
-- 
2.43.0


From cdf2547903f4d5b0ae18edd194c6dd537c53dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 17/50] fix: sc_uri_create() searched userinfo, host and port
 beyond the authority

---
 uri/sc_uri.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..53c87aa 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -70,14 +70,14 @@ struct sc_uri *sc_uri_create(const char *str)
 		authority_len = 2;
 		pos += authority_len;
 
-		ptr = strchr(pos, '@');
-		if (ptr != NULL) {
+		ptr = pos + strcspn(pos, "@/?#");
+		if (*ptr == '@') {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
 		}
 
-		ptr = pos + strcspn(pos, *pos == '[' ? "]" : ":/?#");
+		ptr = pos + strcspn(pos, *pos == '[' ? "]/?#" : ":/?#");
 		host = pos;
 		host_len = ptr - pos + (*host == '[');
 		pos = host + host_len;
@@ -86,8 +86,8 @@ struct sc_uri *sc_uri_create(const char *str)
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
+		ptr = pos;
+		if (*ptr == ':') {
 			if (*(ptr + 1) == '\0') {
 				return NULL;
 			}
-- 
2.43.0


From 569c813bb9eed33fe0691ed06841212c1e4d10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 18/50] fix: sc_uri_create() lost the fragment when it contains
 a question mark

---
 uri/sc_uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 53c87aa..0c36e9c 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -108,8 +108,8 @@ struct sc_uri *sc_uri_create(const char *str)
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
+	ptr = pos;
+	if (*ptr == '?') {
 		query = ptr;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
-- 
2.43.0


From d881b6afb3f6595c3231f096929d979602639eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 19/50] fix: sc_uri_create() accepted ports that are not
 numbers up to 65535

---
 uri/sc_uri.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 0c36e9c..d4f23ee 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -94,13 +94,21 @@ struct sc_uri *sc_uri_create(const char *str)
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535) {
 				return NULL;
 			}
 
 			port = ptr;
 			port_len = parse_end - ptr;
 			pos = port + port_len;
+
+			if (strspn(port + 1, "0123456789") != port_len - 1) {
+				return NULL;
+			}
+		}
+
+		if (strchr("/?#", *pos) == NULL) {
+			return NULL;
 		}
 	}
 
-- 
2.43.0


From d49cb0c825535e1554f24c4b9cd8a6860e691fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 20/50] fix: sc_ini_parse_file() parsed the rest of a truncated
 line as further lines

---
 ini/sc_ini.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..3f5513c 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,20 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+
+	if (fgets(buf, (int) size + 1, (FILE *) p) == NULL) {
+		return NULL;
+	}
+
+	// Skip rest of the line if it does not fit.
+	if (strlen(buf) == size && buf[size - 1] != '\n') {
+		do {
+			c = fgetc((FILE *) p);
+		} while (c != '\n' && c != EOF);
+	}
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From de81f0ccb3af847ec8cd77d8c7dd24f693ef189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 21/50] fix: sc_rand_init() started from the seed instead of
 RC4's identity permutation

---
 sc/sc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..7ef10de 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -46,7 +46,9 @@ void sc_rand_init(struct sc_rand *r, const unsigned char *init)
 
 	*r = (struct sc_rand){0};
 
-	memcpy(r->init, init, 256);
+	for (int i = 0; i < 256; i++) {
+		r->init[i] = (unsigned char) i;
+	}
 
 	for (int i = 0; i < 256; i++) {
 		r->j += r->init[i] + init[i];
-- 
2.43.0


From f500117d907e172e0ef909d7cb2fb9095e93a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 22/50] fix: sc_size_to_bytes() overflowed for negative numbers

---
 sc/sc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sc/sc.c b/sc/sc.c
index 7ef10de..522fc38 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -147,6 +147,10 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
+	if (val < 0) {
+		return -1;
+	}
+
 	count = (int) (end - parse_end);
 
 	switch (count) {
-- 
2.43.0


From e9cc3c602f3655d11a3ac837a1cd4b39f5f9cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 23/50] fix: sc_size_to_bytes() refused a space before the unit

---
 sc/sc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sc/sc.c b/sc/sc.c
index 522fc38..0f5233a 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -151,6 +151,10 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
+	while (*parse_end == ' ') {
+		parse_end++;
+	}
+
 	count = (int) (end - parse_end);
 
 	switch (count) {
-- 
2.43.0


From edc934e4e619a94d1c5b04cadb051ede04d2ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 24/50] fix: sc_signal_vsnprintf() wrote a zero into a buffer
 of size zero

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From 287b98d5fb6fb75f8caea83305214acdd9b6737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 25/50] fix: sc_signal_vsnprintf() overflowed for the least 64
 bit number

---
 signal/sc_signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..9c258f7 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -133,7 +133,7 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 				} else if (*pos == 'd') {
 					i = get_int(va, pos - orig);
-					u = (uint64_t) (i < 0 ? -i : i);
+					u = i < 0 ? 0 - (uint64_t) i : (uint64_t) i;
 
 					do {
 						c = (char) ('0' + (u % 10));
-- 
2.43.0


From 7ff7a211ac1f39862086383c671a9988633b6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 26/50] fix: sc_signal_log() wrote beyond the buffer for an
 invalid format

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 9c258f7..d17c787 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -526,6 +526,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr < 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 077c98d40a3594062dcede1dcf569fc077be6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 27/50] fix: a shutdown signal interrupting the handler of
 another one did not force the shutdown

---
 signal/sc_signal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index d17c787..bf152de 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -398,13 +398,11 @@ static void sc_signal_on_shutdown(int sig)
 
 	sc_signal_log(fd, buf, sizeof(buf), "Recv : %s, (%d) \n", str, sig);
 
-	if (sc_signal_will_shutdown != 0) {
+	if (__sync_lock_test_and_set(&sc_signal_will_shutdown, 1) != 0) {
 		sc_signal_log(fd, buf, sizeof(buf), "Forcing shut down! \n");
 		sc_exit(1);
 	}
 
-	sc_signal_will_shutdown = 1;
-
 	if (sc_signal_shutdown_fd != -1) {
 		sc_signal_log(fd, buf, sizeof(buf),
 			      "Sending shutdown command. \n");
-- 
2.43.0


From 4a231eb462c996357a0a59b227be03e9c14c3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 28/50] fix: sc_cond_term() returned a positive number on error

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From 61dc629b94379f541a6c99b929e332dea52b6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 29/50] fix: sc_thread_err() returned uninitialized memory
 before the first error

---
 thread/sc_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..d68a590 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -36,6 +36,7 @@
 void sc_thread_init(struct sc_thread *t)
 {
 	t->id = 0;
+	t->err[0] = '\0';
 }
 
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From 6e5cd1afe20bf68e2cecf5690913bd46e6dad8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 30/50] fix: sc_thread_start() kept an undefined thread id
 after a failure, joining it was undefined

---
 thread/sc_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index d68a590..1f39d71 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -136,6 +136,7 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		t->id = 0;
 	}
 
 	// This may only fail with EINVAL.
-- 
2.43.0


From 28abfaa4d06580a0b80224da802d5a19d1b5cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 31/50] fix: sc_thread_start() and sc_thread_join() returned
 positive numbers on error

---
 thread/sc_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 1f39d71..44180e4 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -137,6 +137,7 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
 		t->id = 0;
+		rc = -1;
 	}
 
 	// This may only fail with EINVAL.
@@ -157,6 +158,7 @@ int sc_thread_join(struct sc_thread *t, void **ret)
 	rc = pthread_join(t->id, &val);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		rc = -1;
 	}
 
 	t->id = 0;
-- 
2.43.0


From 5bf21febe37b14cd40061311a51650bccc74c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 32/50] fix: sc_log_init() returned a positive number on error
 and left a logger with an invalid mutex

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..036b7de 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -182,6 +182,7 @@ int sc_log_init(void)
 	rc = sc_log_mutex_init(&sc_log.mtx);
 	if (rc != 0) {
 		errno = rc;
+		return -1;
 	}
 
 	sc_log.init = true;
-- 
2.43.0


From 685872350ae12884ba49e478d15a776d709315db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 33/50] fix: sc_log_set_file() did not set errno for a too long
 path

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 036b7de..61f8b1d 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -281,6 +281,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From 50bf1c9ba35a3f7a0f90871a6c69cce47bf06857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 34/50] fix: the log file grew beyond SC_LOG_FILE_SIZE, line
 headers were not counted

---
 logger/sc_log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 61f8b1d..443ca2c 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -351,7 +351,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -381,6 +381,8 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
+	sc_log.file_size += rc;
+
 	size = vfprintf(sc_log.fp, fmt, va);
 	if (size < 0) {
 		return -1;
@@ -400,7 +402,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From 94a8f53da726d12ed424c74a05fcc374a4c332ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 35/50] fix: sc_mmap_msync() did not sync the end of a range
 with unaligned offset

---
 memory-map/sc_mmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..c89d96b 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -318,6 +318,9 @@ int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 	int rc;
 	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
 
+	// Address is aligned down to the page, extend range accordingly
+	len += offset & (m->page_size - 1);
+
 	rc = msync(p, len, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
-- 
2.43.0


From 6482c6cdcd3dc4387ca81aa2ccff78bcac59ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 36/50] fix: sc_time_sleep() computed a negative duration above
 INT64_MAX milliseconds

---
 time/sc_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/sc_time.c b/time/sc_time.c
index 03e00db..d945197 100644
--- a/time/sc_time.c
+++ b/time/sc_time.c
@@ -151,7 +151,7 @@ int sc_time_sleep(uint64_t millis)
 	int rc;
 	struct timespec t, rem;
 
-	rem.tv_sec = (time_t) millis / 1000;
+	rem.tv_sec = (time_t) (millis / 1000);
 	rem.tv_nsec = (long) (millis % 1000) * 1000000;
 
 	do {
-- 
2.43.0


From 9bf7c594129e2d0569cff188e7faf993f36941db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 37/50] fix: sc_perf scaled multiplexed counters down instead
 of up

---
 perf/sc_perf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..09ec512 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -129,7 +129,7 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 			items[i].active = n;
 		}
 
-		items[i].value += (double) fmt.value * n;
+		items[i].value += (double) fmt.value / n;
 	}
 }
 
-- 
2.43.0


From cdf542a7b5a792165b2fe7968c6f731e7ba340b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 38/50] fix: sc_perf_start() while running lost the time
 measured so far

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 09ec512..5a6083d 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -169,6 +169,10 @@ void sc_perf_start(void)
 		init = 1;
 	}
 
+	if (running) {
+		return;
+	}
+
 	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
 
 	start = sy_time_nano();
-- 
2.43.0


From ac8c45de5758695ce16ae7cec5afda02185c9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 39/50] fix: socket timeouts ignored the part below a second

The remainder in milliseconds was passed as microseconds: 500 ms set a
timeout of 500 us, which the kernel rounds to one tick.
---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 1bfc530b781c407004a34341d7a1d5d844124c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 40/50] fix: nonblocking Unix domain sockets were blocking

sc_sock_listen() and sc_sock_connect() ignored the 'blocking' flag of
sc_sock_init() for SC_SOCK_UNIX, so accept() and recv() blocked.
---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..620adc4 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -349,6 +349,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -470,6 +475,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 		goto err;
 	}
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	return 0;
 
 err:
-- 
2.43.0


From 0bc6ef9a9809fc3b58a5b53687c3594d8a6e96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 41/50] fix: listening on a too long Unix path used another
 path

The path was cut to the size of sun_path, and the file with the long
name was deleted. Fail with EINVAL like sc_sock_connect() does.
---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 620adc4..6572978 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,6 +322,11 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
 	sc_unlink(host);
 
-- 
2.43.0


From f3d2e04c324fa8d75b02d4472d3950fe874ba148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 42/50] fix: address text of unnamed Unix sockets was
 uninitialized

getsockname() and getpeername() write only the family for them, and no
terminator after a path that fills sun_path.
---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 6572978..acd427b 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -830,7 +830,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -846,7 +846,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From dcf8adae951d3e332cb2ab72eba148e1b43dfaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 43/50] fix: name resolution failure could look like a
 connection in progress

getaddrinfo() does not set errno, so EAGAIN of an earlier call was left
there and told the caller to wait for a socket that is closed.
---
 socket/sc_sock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index acd427b..4567488 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -526,6 +526,7 @@ static int sc_sock_bind_src(struct sc_sock *s, const char *addr,
 
 gai_err:
 	sc_sock_errstr(s, rc);
+	errno = EINVAL;
 	return -1;
 err:
 	sc_sock_errstr(s, 0);
@@ -554,6 +555,7 @@ int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
 	rc = getaddrinfo(dst_addr, dst_port, &inf, &sinfo);
 	if (rc != 0) {
 		sc_sock_errstr(s, rc);
+		errno = EINVAL;
 		return -1;
 	}
 
-- 
2.43.0


From 533d38fdd1260688beebf1baa3c939abc9a380bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 44/50] fix: too long NOTIFY_SOCKET was cut to another address

---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 4567488..5e1823d 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,6 +177,11 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
-- 
2.43.0


From fc731715bd023f3ed4f30affbe6453c7bdf494f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 45/50] fix: sc_array_del() used its own variable for an index
 named idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..19b8b38 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+		size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - _idx - 1;                      \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+		size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 532324f70c5e19aa587238d932ee5ff240fdee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 46/50] fix: sc_array_add() of an element computed from the
 array itself was undefined

---
 array/sc_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index 19b8b38..5fc1ed0 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -108,7 +108,8 @@
 			(a)->elems = _p;                                       \
 		}                                                              \
 		(a)->oom = false;                                              \
-		(a)->elems[(a)->size++] = k;                                   \
+		(a)->elems[(a)->size] = k;                                     \
+		(a)->size++;                                                   \
 	} while (0)
 
 /**
-- 
2.43.0


From b21cf4353f0a5bfc0554b2771118a40ad659aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 47/50] fix: sc_queue_add_first() of an element of the queue
 itself added another one

---
 queue/sc_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index 0174056..1a0a9e6 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -236,8 +236,8 @@
 			break;                                                 \
 		}                                                              \
 		(q)->oom = false;                                              \
+		(q)->elems[((q)->first - 1) & ((q)->cap - 1)] = elem;          \
 		(q)->first = ((q)->first - 1) & ((q)->cap - 1);                \
-		(q)->elems[(q)->first] = elem;                                 \
 	} while (0)
 
 static inline size_t sc_queue_inc_first(size_t *first, size_t cap)
-- 
2.43.0


From 7134225ada6330f480ce24381abaa639d9bba9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:20 +0000
Subject: [PATCH 48/50] fix: sc_str_append() of the string itself read freed
 memory

---
 string/sc_str.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 70b8794..427532e 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -207,7 +207,8 @@ bool sc_str_set_fmt(char **str, const char *fmt, ...)
 
 bool sc_str_append(char **str, const char *param)
 {
-	size_t len, alloc;
+	bool self;
+	size_t len, alloc, off;
 	struct sc_str *m;
 
 	if (*str == NULL) {
@@ -219,12 +220,17 @@ bool sc_str_append(char **str, const char *param)
 	len = strlen(param);
 	alloc = sc_str_bytes(m->len + len);
 
+	// 'param' may be a part of the string, it moves with reallocation.
+	self = (uintptr_t) param >= (uintptr_t) m->buf &&
+	       (uintptr_t) param <= (uintptr_t) m->buf + m->len;
+	off = self ? (size_t) (param - m->buf) : 0;
+
 	if (len > SC_STR_MAX - m->len ||
 	    (m = sc_str_realloc(m, alloc)) == NULL) {
 		return false;
 	}
 
-	memcpy(&m->buf[m->len], param, len);
+	memcpy(&m->buf[m->len], self ? &m->buf[off] : param, len);
 	m->len += (uint32_t) len;
 	m->buf[m->len] = '\0';
 	*str = m->buf;
-- 
2.43.0


From 80dd92dc9f0455cb657d5576d50e9664b0687b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 49/50] fix: sc_str_replace() copied overlapping memory when
 given a part of the string

---
 string/sc_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 427532e..2c7b696 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -390,7 +390,7 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 	// Fast path, same size replacement.
 	if (diff == 0) {
 		while ((orig = strstr(orig, replace)) != NULL) {
-			memcpy(orig, with, rep_len);
+			memmove(orig, with, rep_len);
 			orig += rep_len;
 		}
 
-- 
2.43.0


From 39a370fed7ca4fd8310313c9c287637e8bd7a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 50/50] fix: sc_buf_get_blob() returned data from an invalid
 buffer

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index a424316..4416917 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -618,7 +618,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
+	if (b->err != 0 || !sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
-- 
2.43.0

