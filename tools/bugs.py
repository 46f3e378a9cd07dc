#!/usr/bin/env python3
"""Planted bugs, regenerated as seeded/ID (bugs.py [ID...])."""
import sys
from mkbug import make
B = {}


def bug(id, **kw):
    B[id] = kw


HEAD = """#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\\n", __LINE__, #x); exit(1); } } while (0)
"""

OWN = """#ifndef CONFIG_H
#define CONFIG_H
#include <stddef.h>
void *app_malloc(size_t n);
void *app_calloc(size_t a, size_t b);
void *app_realloc(void *p, size_t n);
void app_free(void *p);
#define sc_%(m)s_malloc app_malloc
#define sc_%(m)s_calloc app_calloc
#define sc_%(m)s_realloc app_realloc
#define sc_%(m)s_free app_free
#endif
"""
OWNC = """#include "config.h"
static long live; /* blocks of the application, each behind a header */
void *app_malloc(size_t n)
{
	char *p = malloc(n + 32);
	live++;
	return p + 32;
}
void *app_calloc(size_t a, size_t b)
{
	return memset(app_malloc(a * b), 0, a * b);
}
void *app_realloc(void *p, size_t n)
{
	return p ? (char *) realloc((char *) p - 32, n + 32) + 32 : app_malloc(n);
}
void app_free(void *p)
{
	if (p) {
		free((char *) p - 32);
		live--;
	}
}
"""

bug("map-wrapped-hole", prop="C01", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "if ((p > it && (p <= prev || it >= prev)) ||", "if ((p > it && p <= prev) ||")],
    needs="a deletion whose probe cluster wraps around the end of the table, with the hole already moved to the start and an "
          "element whose home slot lies before the wrap",
    breaks="sc_map_del() leaves an element behind a hole: a later get of that key reports it missing",
    demo=HEAD + """#include "sc_map.h"
/* every insertion order of colliding keys around the end of a table of 8, one deleted */
int main(void)
{
	uint32_t k[6] = {7, 15, 23, 6, 14, 31};
	for (int code = 0; code < 46656; code++) {
		struct sc_map_32 m;
		bool in[6] = {0};
		int c = code;
		CHECK(sc_map_init_32(&m, 8, 95));
		for (int i = 0; i < 6; i++, c /= 6) {
			sc_map_put_32(&m, k[c % 6], k[c % 6] + 1);
			in[c % 6] = true;
		}
		for (int d = 0; d < 6; d++) {
			sc_map_del_32(&m, k[d]);
			CHECK(sc_map_found(&m) == in[d]);
			in[d] = false;
			for (int i = 0; i < 6; i++) {
				uint32_t v = sc_map_get_32(&m, k[i]);
				CHECK(sc_map_found(&m) == in[i]);
				CHECK(!in[i] || v == k[i] + 1);
			}
		}
		sc_map_term_32(&m);
	}
	return 0;
}
""")

bug("heap-lone-child", prop="C05", files=["heap/sc_heap.c", "heap/sc_heap.h"],
    edits=[("heap/sc_heap.c", "while (child <= h->size) {", "while (child < h->size) {")],
    needs="a pop that ends at a node whose only child is the last element of the heap and is smaller",
    breaks="sc_heap_pop() leaves the heap out of order, a later pop returns a larger key before a smaller one",
    demo=HEAD + """#include "sc_heap.h"
int main(void)
{
	for (int code = 0; code < 3125 * 25; code++) {
		struct sc_heap h;
		int c = code;
		int64_t last = -1;
		CHECK(sc_heap_init(&h, 0));
		for (int i = 0; i < 7; i++, c /= 5)
			CHECK(sc_heap_add(&h, c % 5, NULL));
		for (int i = 0; i < 7; i++) {
			int64_t k = sc_heap_pop(&h)->key;
			CHECK(k >= last);
			last = k;
		}
		sc_heap_term(&h);
	}
	return 0;
}
""")

bug("timer-full-turn", prop="C07", files=["timer/sc_timer.c", "timer/sc_timer.h"],
    edits=[("timer/sc_timer.c", "sc_timer_min(time / TICK, WHEEL_COUNT));", "sc_timer_min(time / TICK, WHEEL_COUNT - 1));")],
    needs="a poll after a pause of at least 16 ticks with a timer due in the last wheel slot",
    breaks="a timer due in the slot before the current one is passed by and fires a turn of the wheel (256 ms) late",
    demo=HEAD + """#include "sc_timer.h"
static int fired;
static void cb(void *a, uint64_t t, uint64_t type, void *d) { fired++; }
int main(void)
{
	for (uint64_t delay = 0; delay < 600; delay++)
		for (uint64_t step = 1; step < 700; step += 37) {
			struct sc_timer t;
			uint64_t now = 1000, due;
			sc_timer_init(&t, now);
			fired = 0;
			sc_timer_add(&t, delay, 1, NULL);
			due = now + delay;
			while (!fired) {
				now += step;
				sc_timer_timeout(&t, now, NULL, cb);
				CHECK(!fired || now >= due);
				CHECK(fired || now < due + 16);
			}
			sc_timer_term(&t);
		}
	return 0;
}
""")

bug("str-replace-rescan", prop="C12", files=["string/sc_str.c", "string/sc_str.h"],
    edits=[("string/sc_str.c", "\t\t\tmemmove(orig, with, rep_len);\n\t\t\torig += rep_len;", "\t\t\tmemmove(orig, with, rep_len);\n\t\t\torig++;")],
    needs="a replacement of equal length whose end, together with the following text, forms the pattern again",
    breaks="sc_str_replace() also replaces an occurrence that only exists because of an earlier replacement",
    demo=HEAD + """#include "sc_str.h"
int main(void)
{
	char *s = sc_str_create("abb-aabb");
	CHECK(sc_str_replace(&s, "ab", "ba"));
	CHECK(!strcmp(s, "bab-abab"));
	CHECK(sc_str_len(s) == 8);
	sc_str_destroy(&s);
	return 0;
}
""")

bug("map-hash-only", prop="C01", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "\t\treturn t->hash == hash && cmp(t->key, key);                    \\\n",
            "\t\treturn t->key == key || t->hash == hash;                       \\\n")],
    needs="two different strings with the same 32 bit hash",
    breaks="a string keyed map takes strings with equal hashes for the same key",
    demo=HEAD + """#include "sc_map.h"
#define N 600000
static char keys[N][12];
int main(void)
{
	struct sc_map_s64 m;
	CHECK(sc_map_init_s64(&m, 0, 0));
	for (uint64_t i = 0; i < N; i++) {
		snprintf(keys[i], sizeof(keys[i]), "key%u", (unsigned) i);
		sc_map_put_s64(&m, keys[i], i);
		CHECK(!sc_map_found(&m));
	}
	CHECK(sc_map_size_s64(&m) == N);
	for (uint64_t i = 0; i < N; i++)
		CHECK(sc_map_get_s64(&m, keys[i]) == i);
	sc_map_term_s64(&m);
	return 0;
}
""")

bug("map-grow-failed", prop="C02", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "\t\tcap = m->cap;                                                  \\\n\t\tnew = sc_map_alloc_##name(&cap, 2);                            \\\n",
            "\t\tcap = m->cap;                                                  \\\n\t\tm->remap = (uint32_t) (cap * 2 * ((double) m->load_fac / 100)); \\\n\t\tnew = sc_map_alloc_##name(&cap, 2);                            \\\n")],
    needs="an allocation failing while the map grows, and more puts after it",
    breaks="after a failed growth the map is filled beyond its capacity: gets and puts of missing keys never end",
    demo=HEAD + """#include "sc_map.h"
#include <unistd.h>
static int fail;
void *__real_calloc(size_t a, size_t b);
void *__wrap_calloc(size_t a, size_t b) { return fail ? NULL : __real_calloc(a, b); }
int main(void)
{
	struct sc_map_32 m;
	uint32_t n = 0;
	alarm(20);
	CHECK(sc_map_init_32(&m, 8, 0));
	fail = 1;
	for (uint32_t i = 1; i <= 9; i++) {
		sc_map_put_32(&m, i, i);
		n += !sc_map_oom(&m);
		CHECK(sc_map_size_32(&m) == n);
	}
	CHECK(n < 8);
	fail = 0;
	CHECK(sc_map_get_32(&m, 100) == 0 && !sc_map_found(&m));
	sc_map_term_32(&m);
	return 0;
}
""", flags="-Wl,--wrap=calloc")

bug("queue-peek-wrap", prop="C03", files=["queue/sc_queue.h"],
    edits=[("queue/sc_queue.h", "#define sc_queue_peek_last(q) (q)->elems[((q)->last - 1) & ((q)->cap - 1)]",
            "#define sc_queue_peek_last(q) (q)->elems[(q)->last ? (q)->last - 1 : 0]")],
    needs="the last element at the end of the ring, so that the end index wrapped to zero",
    breaks="sc_queue_peek_last() returns another element",
    demo=HEAD + """#include "sc_queue.h"
int main(void)
{
	struct sc_queue_int q;
	sc_queue_init(&q);
	for (int i = 0; i < 40; i++) {
		sc_queue_add_last(&q, i);
		CHECK(sc_queue_peek_last(&q) == i);
		if (i % 5)
			CHECK(sc_queue_del_first(&q) >= 0);
		if (!sc_queue_empty(&q))
			CHECK(sc_queue_peek_last(&q) == i);
	}
	sc_queue_term(&q);
	return 0;
}
""")

bug("array-cap-early", prop="C04", files=["array/sc_array.h"],
    edits=[("array/sc_array.h", "\t\t\t_p = sc_array_realloc((a)->elems,                      \\\n", "\t\t\t(a)->cap = _cap;                                       \\\n\t\t\t_p = sc_array_realloc((a)->elems,                      \\\n"),
           ("array/sc_array.h", "\t\t\t(a)->cap = _cap;                                       \\\n\t\t\t(a)->elems = _p;", "\t\t\t(a)->elems = _p;")],
    needs="a reallocation failing and a further add",
    breaks="the capacity is recorded although the memory was not enlarged: the next add writes beyond it",
    demo=HEAD + """#include "sc_array.h"
static int fail;
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { return fail ? NULL : __real_realloc(p, n); }
int main(void)
{
	struct sc_array_int a;
	sc_array_init(&a);
	for (int i = 0; i < 8; i++)
		sc_array_add(&a, i);
	fail = 1;
	sc_array_add(&a, 8);
	CHECK(sc_array_oom(&a));
	CHECK(sc_array_size(&a) == 8);
	sc_array_add(&a, 8);
	CHECK(sc_array_oom(&a));
	CHECK(sc_array_size(&a) == 8);
	sc_array_term(&a);
	return 0;
}
""", flags="-Wl,--wrap=realloc")

bug("list-before-itself", prop="C06", files=["linked-list/sc_list.c", "linked-list/sc_list.h"],
    edits=[("linked-list/sc_list.c", "	(void) l;\n	struct sc_list *prev;\n\n	// Delete if exists to prevent adding same item twice\n	sc_list_del(l, elem);\n\n	prev = next->prev;\n",
            "	(void) l;\n	struct sc_list *prev = next->prev;\n\n	// Delete if exists to prevent adding same item twice\n	sc_list_del(l, elem);\n\n")],
    needs="adding an element before its own successor",
    breaks="the element is linked to itself and everything before it is lost",
    demo=HEAD + """#include "sc_list.h"
int main(void)
{
	struct sc_list l, e[3];
	sc_list_init(&l);
	for (int i = 0; i < 3; i++) {
		sc_list_init(&e[i]);
		sc_list_add_tail(&l, &e[i]);
	}
	sc_list_add_before(&l, &e[2], &e[1]);
	CHECK(e[1].prev == &e[0] && e[0].next == &e[1]);
	CHECK(sc_list_count(&l) == 3);
	return 0;
}
""")

bug("timer-callback-grow", prop="C08", files=["timer/sc_timer.c", "timer/sc_timer.h"],
    edits=[("timer/sc_timer.c", "\t\t\t\tbase = t->wheel * head;\n\t\t\t}\n", "\t\t\t\tif (item != &t->list[base + i]) {\n\t\t\t\t\tbase = wheel * head;\n\t\t\t\t}\n\t\t\t}\n")],
    needs="a callback that adds so many timers that the storage grows while timers of the same slot are still to fire",
    breaks="the rest of the slot is not found in the grown storage, its timers fire a turn late",
    demo=HEAD + """#include "sc_timer.h"
static struct sc_timer t;
static int fired[2];
static void cb(void *a, uint64_t to, uint64_t type, void *d)
{
	fired[type]++;
	if (type == 0 && d)
		for (int i = 0; i < 20; i++)
			sc_timer_add(&t, 200, 0, NULL);
}
int main(void)
{
	sc_timer_init(&t, 0);
	sc_timer_add(&t, 70, 0, &t);
	sc_timer_add(&t, 70, 1, NULL);
	sc_timer_add(&t, 70, 1, NULL);
	sc_timer_timeout(&t, 96, NULL, cb);
	CHECK(fired[0] == 1);
	CHECK(fired[1] == 2);
	sc_timer_term(&t);
	return 0;
}
""")

bug("buf-str-len-full", prop="C09", files=["buffer/sc_buf.c", "buffer/sc_buf.h"],
    edits=[("buffer/sc_buf.c", "	if (wr >= quota) {\n		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {", "	if (wr > quota) {\n		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {")],
    needs="a formatted string that fits the free space exactly without its terminating zero",
    breaks="the last character is cut off and the write position passes the capacity",
    demo=HEAD + """#include "sc_buf.h"
int main(void)
{
	for (int n = 1; n < 200; n++) {
		struct sc_buf b;
		char text[256] = {0};
		memset(text, 'x', n);
		CHECK(sc_buf_init(&b, 100));
		sc_buf_put_fmt(&b, "%s", text);
		CHECK(sc_buf_valid(&b));
		CHECK(sc_buf_wpos(&b) <= sc_buf_cap(&b));
		CHECK(!strcmp(sc_buf_get_str(&b), text));
		sc_buf_term(&b);
	}
	return 0;
}
""")

bug("buf-str-after-error", prop="C10", files=["buffer/sc_buf.c", "buffer/sc_buf.h"],
    edits=[("buffer/sc_buf.c", "	if (!sc_buf_valid(b)) {\n		return NULL;\n	}\n\n	if (len >= b->wpos", "	if (len >= b->wpos")],
    needs="a string read after an error, with a zero byte at the read position",
    breaks="sc_buf_get_str() returns an empty string from an invalid buffer instead of NULL and moves on",
    demo=HEAD + """#include "sc_buf.h"
int main(void)
{
	unsigned char mem[6] = {1, 2, 0, 3, 0, 5};
	struct sc_buf b = sc_buf_wrap(mem, sizeof(mem), SC_BUF_READ);
	CHECK(sc_buf_get_16(&b) == 0x201);
	CHECK(sc_buf_get_str(&b) == NULL);
	CHECK(!sc_buf_valid(&b));
	CHECK(sc_buf_get_str(&b) == NULL);
	CHECK(sc_buf_get_8(&b) == 0);
	return 0;
}
""")

bug("token-last-empty", prop="C13", files=["string/sc_str.c", "string/sc_str.h"],
    edits=[("string/sc_str.c", "		if (*it == '\\0') {\n			return NULL;\n		}\n		it++;\n", "		if (*it == '\\0' || strchr(delim, *it) == NULL) {\n			return NULL;\n		}\n		it++;\n")],
    needs="a delimiter set that changes between two calls so that it no longer contains the delimiter of the last token",
    breaks="the iteration ends early",
    demo=HEAD + """#include "sc_str.h"
int main(void)
{
	char *s = sc_str_create("key=a,b"), *save = NULL;
	CHECK(!strcmp(sc_str_token_begin(s, &save, "="), "key"));
	const char *t = sc_str_token_begin(s, &save, ",");
	CHECK(t && !strcmp(t, "a"));
	t = sc_str_token_begin(s, &save, ",");
	CHECK(t && !strcmp(t, "b"));
	CHECK(!sc_str_token_begin(s, &save, ","));
	CHECK(!strcmp(s, "key=a,b"));
	sc_str_destroy(&s);
	return 0;
}
""")

bug("uri-stale-errno", prop="C14", files=["uri/sc_uri.c", "uri/sc_uri.h"],
    edits=[("uri/sc_uri.c", "			errno = 0;\n			val = strtoul", "			val = strtoul")],
    needs="errno set by an earlier call of anything in the program",
    breaks="valid URIs with a port are rejected",
    demo=HEAD + """#include "sc_uri.h"
#include <errno.h>
int main(void)
{
	errno = ENOENT;
	struct sc_uri *u = sc_uri_create("http://h:80/p");
	CHECK(u && !strcmp(u->port, "80"));
	sc_uri_destroy(u);
	return 0;
}
""")

bug("ini-section-key", prop="C15", files=["ini/sc_ini.c", "ini/sc_ini.h"],
    edits=[("ini/sc_ini.c", "			*key = '\\0';\n			*end = '\\0';", "			*end = '\\0';")],
    needs="an indented line that follows a section line directly, with a key before the section",
    breaks="the line is reported as continuation of the last key of the previous section",
    demo=HEAD + """#include "sc_ini.h"
static char out[200];
static int cb(void *a, int line, const char *s, const char *k, const char *v)
{
	sprintf(out + strlen(out), "%d %s %s %s;", line, s, k, v);
	return 0;
}
int main(void)
{
	CHECK(sc_ini_parse_string(NULL, cb, "[s]\\na=1\\n[t]\\n  b=2\\n") == 0);
	CHECK(!strcmp(out, "2 s a 1;4 t b 2;"));
	return 0;
}
""")

bug("option-last-match", prop="C16", files=["option/sc_option.c", "option/sc_option.h"],
    edits=[("option/sc_option.c", "				id = opt->options[i].letter;\n				*value = pos + (*pos != '=' ? 0 : 1);\n				break;\n",
            "				id = opt->options[i].letter;\n				*value = pos + (*pos != '=' ? 0 : 1);\n")],
    needs="two options with the same name",
    breaks="the letter of the last instead of the first matching option is returned",
    demo=HEAD + """#include "sc_option.h"
int main(void)
{
	struct sc_option_item items[] = {{.letter = 'a', .name = "name"}, {.letter = 'b', .name = "name"}};
	char *argv[] = {"x", "--name=1"}, *v;
	struct sc_option o = {.argv = argv, .count = 2, .options = items};
	CHECK(sc_option_at(&o, 1, &v) == 'a');
	return 0;
}
""")

bug("size-round-up", prop="C17", files=["sc/sc.c", "sc/sc.h"],
    edits=[("sc/sc.c", "val > 0xfffccccccccccccUL >> i", "val > 0xfffffffffffffffUL >> i")],
    needs="a byte count less than 0.0005 percent below a unit",
    breaks="the text is 1024.00 of the smaller unit instead of 1.00 of the larger one",
    demo=HEAD + """#include "sc.h"
int main(void)
{
	char b[64];
	for (uint64_t v = 1024 * 1024 - 2000; v < 1024 * 1024; v++) {
		CHECK(sc_bytes_to_size(b, sizeof(b), v));
		CHECK(strncmp(b, "1024", 4));
	}
	return 0;
}
""")

bug("rand-split", prop="C18", files=["sc/sc.c", "sc/sc.h"],
    edits=[("sc/sc.c", "	unsigned char t;\n	unsigned char *p = buf;\n", "	unsigned char t;\n	unsigned char *p = buf;\n	unsigned char i = r->i;\n"),
           ("sc/sc.c", "		r->i++;\n		t = r->init[r->i];\n		r->j += t;\n		r->init[r->i] = r->init[r->j];\n		r->init[r->j] = t;\n		t += r->init[r->i];\n",
            "		i++;\n		t = r->init[i];\n		r->j += t;\n		r->init[i] = r->init[r->j];\n		r->init[r->j] = t;\n		t += r->init[i];\n"),
           ("sc/sc.c", "	} while (--size);\n", "	} while (--size);\n\n	r->i = (unsigned char) (p - (unsigned char *) buf);\n")],
    needs="the stream read in more than one piece, and compared with the same stream read in one piece",
    breaks="the position after the second read is wrong, so the stream depends on how it is read",
    demo=HEAD + """#include "sc.h"
int main(void)
{
	unsigned char seed[256], a[64], b[64];
	struct sc_rand r, s;
	for (int i = 0; i < 256; i++)
		seed[i] = i * 7;
	sc_rand_init(&r, seed);
	sc_rand_init(&s, seed);
	sc_rand_read(&r, a, 64);
	for (int i = 0; i < 64; i += 16)
		sc_rand_read(&s, b + i, 16);
	CHECK(!memcmp(a, b, 64));
	return 0;
}
""")

bug("crc-misaligned-tail", prop="C19", files=["crc32/sc_crc32.c", "crc32/sc_crc32.h"],
    edits=[("crc32/sc_crc32.c", "	while (len && ((uintptr_t) next & 7) != 0) {\n		crc = crc32c_table_le[0][(crc ^ *next++) & 0xff] ^ (crc >> 8);\n		len--;\n	}\n	if (len >= 8) {",
            "	while (((uintptr_t) next & 7) != 0) {\n		crc = crc32c_table_le[0][(crc ^ *next++) & 0xff] ^ (crc >> 8);\n		if (len-- == 0) {\n			return ~crc;\n		}\n	}\n	if (len >= 8) {")],
    needs="a short message that ends before the next multiple of eight",
    breaks="a byte beyond the message is part of the checksum",
    demo=HEAD + """#include "sc_crc32.h"
static uint32_t ref(uint32_t c, unsigned char *p, size_t n)
{
	c = ~c;
	while (n--) {
		c ^= *p++;
		for (int i = 0; i < 8; i++)
			c = c & 1 ? (c >> 1) ^ 0x82f63b78 : c >> 1;
	}
	return ~c;
}
int main(void)
{
	unsigned char b[80] __attribute__((aligned(16)));
	sc_crc32_init();
	for (int i = 0; i < 80; i++)
		b[i] = i * 37 + 1;
	for (int o = 0; o < 16; o++)
		for (int n = 0; n < 40; n++)
			CHECK(sc_crc32(5, b + o, n) == ref(5, b + o, n));
	return 0;
}
""")

bug("fmt-cut-length", prop="C20", files=["signal/sc_signal.c", "signal/sc_signal.h"],
    edits=[("signal/sc_signal.c", "		len = len < out_cap ? len : out_cap;\n		memcpy(out, str, len);\n",
            "		if (len > out_cap) {\n			memcpy(out, str, out_cap);\n			out[sz != 0 ? out_cap : 0] = sz != 0 ? '\\0' : *out;\n			return (int) (out - buf + len);\n		}\n		memcpy(out, str, len);\n")],
    needs="text that is cut to the buffer",
    breaks="the length the text would have is returned, and the log writes memory beyond the buffer to the descriptor",
    demo=HEAD + """#include "sc_signal.h"
int main(void)
{
	char b[16];
	int n = sc_signal_snprintf(b, 8, "%s-%d", "abcdefgh", 12345);
	CHECK(n == 7 && !strcmp(b, "abcdefg"));
	n = sc_signal_snprintf(b, 8, "%d%d", 12345, 67890);
	CHECK(n == 7 && !strcmp(b, "1234567"));
	return 0;
}
""")

bug("fmt-static-digits", prop="C21", files=["signal/sc_signal.c", "signal/sc_signal.h"],
    edits=[("signal/sc_signal.c", "	char dst[32];\n", "	static char dst[32];\n")],
    needs="a signal arriving between the conversion of a number and its copy, whose handler formats a number as well",
    breaks="the interrupted text contains the digits of the handler's number",
    demo=HEAD + """#include "sc_signal.h"
#include <pthread.h>
static void *run(void *a)
{
	char b[64], e[64];
	unsigned long v = (unsigned long) a;
	sprintf(e, "%lu %lu", v, v + 1);
	for (int i = 0; i < 3000000; i++) {
		sc_signal_snprintf(b, sizeof(b), "%lu %lu", v, v + 1);
		CHECK(!strcmp(b, e));
	}
	return NULL;
}
int main(void)
{
	pthread_t t[4];
	for (unsigned long i = 0; i < 4; i++)
		pthread_create(&t[i], NULL, run, (void *) (i * 1111111111111ul));
	for (int i = 0; i < 4; i++)
		pthread_join(t[i], NULL);
	return 0;
}
""")

bug("shutdown-errno", prop="C22", files=["signal/sc_signal.c", "signal/sc_signal.h"],
    edits=[("signal/sc_signal.c", "	int rc, saved_errno = errno;\n", "	int rc, saved_errno = 0;\n")],
    needs="a shutdown signal arriving between a failing call and the test of errno",
    breaks="the handler does not preserve errno",
    demo=HEAD + """#include "sc_signal.h"
#include <errno.h>
#include <signal.h>
#include <unistd.h>
int main(void)
{
	int p[2];
	CHECK(pipe(p) == 0);
	CHECK(sc_signal_init() == 0);
	sc_signal_shutdown_fd = p[1];
	errno = EAGAIN;
	raise(SIGTERM);
	CHECK(errno == EAGAIN);
	return 0;
}
""")

bug("fatal-log-zero", prop="C23", files=["signal/sc_signal.c", "signal/sc_signal.h"],
    edits=[("signal/sc_signal.c", "	int fd = sc_signal_log_fd != -1 ? sc_signal_log_fd : STDERR_FILENO;", "	int fd = sc_signal_log_fd > 0 ? sc_signal_log_fd : STDERR_FILENO;")],
    needs="a daemon that closed its standard input, so that its log file is descriptor 0",
    breaks="the crash report goes to standard error instead of the log file",
    demo=HEAD + """#include "sc_signal.h"
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
int main(void)
{
	char b[4096] = {0};
	int st;
	pid_t c = fork();
	if (c == 0) {
		close(0);
		if (open("log", O_CREAT | O_RDWR, 0600) != 0)
			_exit(0);
		sc_signal_init();
		sc_signal_log_fd = 0;
		raise(SIGILL);
		_exit(0);
	}
	waitpid(c, &st, 0);
	CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGILL);
	CHECK(read(open("log", O_RDONLY), b, sizeof(b) - 1) > 0);
	CHECK(strstr(b, "SIGILL"));
	return 0;
}
""")

bug("cond-if", prop="C24", files=["condition/sc_cond.c", "condition/sc_cond.h"],
    edits=[("condition/sc_cond.c", "	while (c->done == false) {\n		// This won't fail as long as we pass correct params.\n		rc = pthread_cond_wait",
            "	if (c->done == false) {\n		// This won't fail as long as we pass correct params.\n		rc = pthread_cond_wait")],
    needs="a spurious wakeup, or a second waiter that takes the event between the signal and the wakeup of the first one",
    breaks="a wait returns without an event",
    demo=HEAD + """#include "sc_cond.h"
#include <unistd.h>
static struct sc_cond c;
static volatile int waiting, done;
static void *got;
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	waiting = 1;
	/* spurious wakeup, the mutex is released and taken again */
	pthread_mutex_unlock(m);
	usleep(1000);
	pthread_mutex_lock(m);
	return 0;
}
static void *run(void *a)
{
	got = sc_cond_wait(&c);
	done = 1;
	return NULL;
}
int main(void)
{
	pthread_t t;
	CHECK(sc_cond_init(&c) == 0);
	pthread_create(&t, NULL, run, NULL);
	usleep(200000);
	CHECK(waiting && !done);
	sc_cond_signal(&c, &c);
	pthread_join(t, NULL);
	CHECK(got == &c);
	return 0;
}
""", flags="-Wl,--wrap=pthread_cond_wait")

bug("mutex-attr-leak", prop="C25", files=["mutex/sc_mutex.c", "mutex/sc_mutex.h"],
    edits=[("mutex/sc_mutex.c", "	rc = pthread_mutex_init(&mtx->mtx, &attr);\n", "	rc = pthread_mutex_init(&mtx->mtx, &attr);\n	if (rc != 0) {\n		return -1;\n	}\n")],
    needs="pthread_mutex_init() failing",
    breaks="the attribute object is not destroyed",
    demo=HEAD + """#include "sc_mutex.h"
#include <errno.h>
#include <pthread.h>
static int live;
int __real_pthread_mutexattr_init(pthread_mutexattr_t *a);
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { live++; return __real_pthread_mutexattr_init(a); }
int __real_pthread_mutexattr_destroy(pthread_mutexattr_t *a);
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { live--; return __real_pthread_mutexattr_destroy(a); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return ENOMEM; }
int main(void)
{
	struct sc_mutex m;
	CHECK(sc_mutex_init(&m) == -1);
	CHECK(live == 0);
	return 0;
}
""", flags="-Wl,--wrap=pthread_mutexattr_init,--wrap=pthread_mutexattr_destroy,--wrap=pthread_mutex_init")

bug("thread-join-ret", prop="C26", files=["thread/sc_thread.c", "thread/sc_thread.h"],
    edits=[("thread/sc_thread.c", "	rc = pthread_join(t->id, &val);\n", "	rc = pthread_join(t->id, ret != NULL ? ret : &val);\n"),
           ("thread/sc_thread.c", "	t->id = 0;\n\nout:\n	if (ret != NULL) {\n		*ret = val;\n	}\n", "	t->id = 0;\n\nout:\n")],
    needs="joining an object whose thread was not started or was joined already, with a result pointer",
    breaks="the result is left uninitialized instead of NULL",
    demo=HEAD + """#include "sc_thread.h"
int main(void)
{
	struct sc_thread t;
	void *r = &t;
	sc_thread_init(&t);
	CHECK(sc_thread_join(&t, &r) == 0);
	CHECK(r == NULL);
	return 0;
}
""")

bug("log-callback-unlocked", prop="C27", files=["logger/sc_log.c", "logger/sc_log.h"],
    edits=[("logger/sc_log.c", "	if (sc_log.cb) {\n		va_start(va, fmt);\n		rc |= sc_log.cb(sc_log.arg, level, fmt, va);\n		va_end(va);\n	}\n\n	sc_log_mutex_unlock(&sc_log.mtx);\n",
            "	sc_log_mutex_unlock(&sc_log.mtx);\n\n	if (sc_log.cb) {\n		va_start(va, fmt);\n		rc |= sc_log.cb(sc_log.arg, level, fmt, va);\n		va_end(va);\n	}\n")],
    needs="a thread replacing the callback while another one logs",
    breaks="the old callback still runs, with the new argument or none, after the replacement returned",
    demo=HEAD + """#include "sc_log.h"
#include <pthread.h>
#include <unistd.h>
static volatile int entered, left;
static int cb(void *a, enum sc_log_level l, const char *f, va_list v)
{
	entered = 1;
	usleep(500000);
	left = 1;
	return 0;
}
static void *run(void *a)
{
	sc_log_info("x");
	return NULL;
}
int main(void)
{
	pthread_t t;
	sc_log_init();
	sc_log_set_stdout(false);
	sc_log_set_callback(NULL, cb);
	pthread_create(&t, NULL, run, NULL);
	while (!entered)
		usleep(1000);
	sc_log_set_callback(NULL, NULL);
	CHECK(left);
	pthread_join(t, NULL);
	sc_log_term();
	return 0;
}
""")

bug("log-size-kept", prop="C28", files=["logger/sc_log.c", "logger/sc_log.h"],
    edits=[("logger/sc_log.c", "	sc_log.file_size = (size_t) size;\n	sc_log.fp = fp;\n", "	sc_log.file_size += (size_t) size;\n	sc_log.fp = fp;\n")],
    needs="the log file set a second time after lines were written",
    breaks="the size of the earlier file is counted as well and the new one is rotated too early",
    demo=HEAD + """#include "sc_log.h"
#include <sys/stat.h>
int main(void)
{
	struct stat st;
	sc_log_init();
	sc_log_set_stdout(false);
	CHECK(sc_log_set_file("p1", "c1") == 0);
	for (int i = 0; i < 1500; i++)
		sc_log_info("%01000d\\n", i);
	CHECK(sc_log_set_file("p2", "c2") == 0);
	for (int i = 0; i < 1000; i++)
		sc_log_info("%01000d\\n", i);
	sc_log_term();
	CHECK(stat("p2", &st) != 0);
	CHECK(stat("c2", &st) == 0 && st.st_size > 1000000);
	return 0;
}
""")

bug("mmap-close-errno", prop="C29", files=["memory-map/sc_mmap.c", "memory-map/sc_mmap.h"],
    edits=[("memory-map/sc_mmap.c", "	saved_errno = errno;\n	close(fd);\n	errno = saved_errno;\n", "	saved_errno = errno;\n	if (close(fd) == 0) {\n		errno = saved_errno;\n	}\n")],
    needs="a failing call followed by a failing close",
    breaks="the error text is the one of close() instead of the reason",
    demo=HEAD + """#include "sc_mmap.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
static int fail;
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { errno = ENOMEM; return MAP_FAILED; }
int __real_close(int fd);
int __wrap_close(int fd) { __real_close(fd); errno = EINTR; return -1; }
int main(void)
{
	struct sc_mmap m;
	CHECK(sc_mmap_init(&m, "f", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, 4096) == -1);
	CHECK(!strcmp(sc_mmap_err(&m), strerror(ENOMEM)));
	return 0;
}
""", flags="-Wl,--wrap=mmap,--wrap=close")

bug("msync-async", prop="C30", files=["memory-map/sc_mmap.c", "memory-map/sc_mmap.h"],
    edits=[("memory-map/sc_mmap.c", "	rc = msync(p, len, MS_SYNC);\n", "	rc = msync(p, len, len > m->page_size ? MS_ASYNC : MS_SYNC);\n")],
    needs="a crash of the machine after a sync of more than a page returned",
    breaks="the sync returns before the pages are on the disk",
    demo=HEAD + """#include "sc_mmap.h"
#include <fcntl.h>
#include <sys/mman.h>
static int flags;
int __real_msync(void *p, size_t n, int f);
int __wrap_msync(void *p, size_t n, int f) { flags = f; return __real_msync(p, n, f); }
int main(void)
{
	struct sc_mmap m;
	CHECK(sc_mmap_init(&m, "f", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, 40960) == 0);
	for (int n = 1; n <= 40960; n += 1000) {
		flags = 0;
		CHECK(sc_mmap_msync(&m, 0, n) == 0);
		CHECK(flags & MS_SYNC);
	}
	sc_mmap_term(&m);
	return 0;
}
""", flags="-Wl,--wrap=msync")

bug("sleep-restart", prop="C31", files=["time/sc_time.c", "time/sc_time.h"],
    edits=[("time/sc_time.c", "	do {\n		t = rem;\n		rc = nanosleep(&t, &rem);\n", "	t = rem;\n\n	do {\n		rc = nanosleep(&t, &rem);\n")],
    needs="a signal arriving during the sleep",
    breaks="the sleep starts again with the whole time after each interruption",
    demo=HEAD + """#include "sc_time.h"
#include <signal.h>
#include <sys/time.h>
static void on(int s) { }
int main(void)
{
	struct sigaction sa = {.sa_handler = on};
	struct itimerval it = {{0, 0}, {0, 400000}};
	sigaction(SIGALRM, &sa, NULL);
	setitimer(ITIMER_REAL, &it, NULL);
	uint64_t t = sc_time_mono_ms();
	CHECK(sc_time_sleep(600) == 0);
	t = sc_time_mono_ms() - t;
	CHECK(t >= 600 && t < 900);
	return 0;
}
""")

PERFWRAP = """#include "sc_perf.h"
#include <time.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
static uint64_t now = 5000000000;
static int fds = 100;
long __wrap_syscall(long n, ...) { return fds++; }
int __wrap_prctl(int o, ...) { return 0; }
int __wrap_close(int fd) { return 0; }
ssize_t __wrap_read(int fd, void *b, size_t n) { memset(b, 0, n); return (ssize_t) n; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; return 0; }
"""
bug("perf-periods", prop="C32", files=["perf/sc_perf.c", "perf/sc_perf.h"],
    edits=[("perf/sc_perf.c", "	total += sy_time_nano() - start;\n", "	total = sy_time_nano() - start;\n")],
    needs="a pause and a second period before the end",
    breaks="the wall time of all periods but the last one is lost",
    demo=HEAD + PERFWRAP + """int main(void)
{
	char b[4096] = {0};
	freopen("out", "w+", stdout);
	sc_perf_start();
	now += 2000000000;
	sc_perf_pause();
	now += 7000000000;
	sc_perf_start();
	now += 1000000000;
	sc_perf_end();
	fflush(stdout);
	rewind(stdout);
	fread(b, 1, sizeof(b) - 1, stdout);
	CHECK(strstr(b, "| 3.00 "));
	return 0;
}
""", flags="-Wl,--wrap=syscall,--wrap=prctl,--wrap=close,--wrap=read,--wrap=clock_gettime")

bug("poll-op-late", prop="C34", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	// a poller thread can see it partially updated if we do not follow\n	// that rule.\n	fdt->op = new_mask;\n\n	rc = epoll_ctl(p->fds, op, fdt->fd, &ep_ev);\n\n	if (rc != 0) {\n		// Rollback to the original state if failed.\n		fdt->op = old_mask;\n		sc_sock_poll_set_err(p, \"epoll_ctl : %s \", strerror(errno));\n		return -1;\n	}\n",
            "	// a poller thread can see it partially updated if we do not follow\n	// that rule.\n	rc = epoll_ctl(p->fds, op, fdt->fd, &ep_ev);\n\n	if (rc != 0) {\n		sc_sock_poll_set_err(p, \"epoll_ctl : %s \", strerror(errno));\n		return -1;\n	}\n\n	fdt->op = new_mask;\n")],
    needs="a poller thread that gets the event of a descriptor before the adding call has returned",
    breaks="the poller thread sees no interest, its delete does nothing, or the freed descriptor is written",
    demo=HEAD + """#include "sc_sock.h"
#include <unistd.h>
#include <sys/epoll.h>
static struct sc_sock_poll p;
static struct sc_sock_fd *f;
static int seen = -1;
int __real_epoll_ctl(int e, int op, int fd, struct epoll_event *ev);
/* what a poller thread sees directly after the change */
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev)
{
	int rc = __real_epoll_ctl(e, op, fd, ev);
	if (op == EPOLL_CTL_ADD)
		seen = f->op;
	return rc;
}
int main(void)
{
	int fd[2];
	CHECK(sc_sock_poll_init(&p) == 0 && pipe(fd) == 0);
	f = calloc(1, sizeof(*f));
	f->fd = fd[0];
	CHECK(sc_sock_poll_add(&p, f, SC_SOCK_READ, f) == 0);
	CHECK(seen == SC_SOCK_READ);
	sc_sock_poll_term(&p);
	return 0;
}
""", flags="-Wl,--wrap=epoll_ctl")

bug("connect-second-address", prop="C35", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "				sc_sock_close(s);\n				continue;\n			}\n\n			goto end;", "				continue;\n			}\n\n			goto end;")],
    needs="a name with several addresses of which the first one refuses the connection",
    breaks="the descriptor of the failed attempt leaks",
    demo=HEAD + """#include "sc_sock.h"
#include <unistd.h>
#include <netdb.h>
#include <arpa/inet.h>
static int port;
static struct sockaddr_in a[2];
static struct addrinfo ai[2];
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
	for (int i = 0; i < 2; i++) {
		a[i].sin_family = AF_INET;
		a[i].sin_port = htons(i ? port : 1);
		a[i].sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		ai[i] = (struct addrinfo){.ai_family = AF_INET, .ai_socktype = SOCK_STREAM, .ai_addr = (void *) &a[i],
					  .ai_addrlen = sizeof(a[i]), .ai_next = i ? NULL : &ai[1]};
	}
	*r = ai;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { }
static int count(void)
{
	int n = 0;
	for (int i = 0; i < 100; i++)
		n += lseek(i, 0, SEEK_CUR) != -1 || fcntl(i, F_GETFD) != -1;
	return n;
}
int main(void)
{
	struct sc_sock s;
	struct sockaddr_in b = {.sin_family = AF_INET};
	socklen_t n = sizeof(b);
	int l = socket(AF_INET, SOCK_STREAM, 0), before;
	b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	CHECK(bind(l, (void *) &b, sizeof(b)) == 0 && listen(l, 5) == 0);
	getsockname(l, (void *) &b, &n);
	port = ntohs(b.sin_port);
	before = count();
	sc_sock_init(&s, 0, true, AF_INET);
	CHECK(sc_sock_connect(&s, "h", "1", NULL, NULL) == 0);
	CHECK(count() == before + 1);
	CHECK(sc_sock_term(&s) == 0);
	CHECK(count() == before);
	return 0;
}
""".replace("#include <unistd.h>\n", "#include <unistd.h>\n#include <fcntl.h>\n"), flags="-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo")

bug("recv-stale-errno", prop="C36", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	if (n == 0) {\n		errno = EOF;\n		return -1;\n	} else if (n == SC_ERR) {", "	if (n == 0) {\n		return -1;\n	} else if (n == SC_ERR) {")],
    needs="the peer's close after a call that would have blocked",
    breaks="the close looks like a call that would block: errno is still EAGAIN",
    demo=HEAD + """#include "sc_sock.h"
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
int main(void)
{
	struct sc_sock s;
	int fd[2];
	char b[4];
	CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0);
	sc_sock_init(&s, 0, false, AF_UNIX);
	s.fdt.fd = fd[0];
	sc_sock_set_blocking(&s, false);
	CHECK(sc_sock_recv(&s, b, 4, 0) == -1 && errno == EAGAIN);
	close(fd[1]);
	CHECK(sc_sock_recv(&s, b, 4, 0) == -1 && errno != EAGAIN);
	return 0;
}
""")

bug("notify-abstract", prop="C37", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	msghdr.msg_namelen = (socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(s));\n	if (msghdr.msg_namelen > sizeof(struct sockaddr_un)) {\n		msghdr.msg_namelen = sizeof(struct sockaddr_un);\n	}\n",
            "	msghdr.msg_namelen = (socklen_t) sizeof(struct sockaddr_un);\n")],
    needs="NOTIFY_SOCKET naming an abstract socket",
    breaks="the message goes to the name padded with zeros, which nobody listens on",
    demo=HEAD + """#include "sc_sock.h"
#include <stddef.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
int main(void)
{
	char env[64], b[64] = {0};
	struct sockaddr_un u = {.sun_family = AF_UNIX};
	int fd = socket(AF_UNIX, SOCK_DGRAM, 0), n;
	n = sprintf(env, "@sc-demo-%d", (int) getpid());
	memcpy(u.sun_path + 1, env + 1, n - 1);
	CHECK(bind(fd, (void *) &u, offsetof(struct sockaddr_un, sun_path) + n) == 0);
	setenv("NOTIFY_SOCKET", env, 1);
	CHECK(sc_sock_notify_systemd("READY=1") == 0);
	CHECK(recv(fd, b, sizeof(b) - 1, MSG_DONTWAIT) == 7 && !strcmp(b, "READY=1"));
	return 0;
}
""")

bug("str-cmp-zero", prop="C12", files=["string/sc_str.c", "string/sc_str.h"],
    edits=[("string/sc_str.c", "	return s1->len == s2->len && !memcmp(s1->buf, s2->buf, s1->len);", "	return s1->len == s2->len && !strcmp(s1->buf, s2->buf);")],
    needs="two strings of the same length that differ behind a zero byte",
    breaks="different strings compare as equal",
    demo=HEAD + """#include "sc_str.h"
int main(void)
{
	char *a = sc_str_create_len("ab\\0cd", 5), *b = sc_str_create_len("ab\\0ce", 5);
	CHECK(!sc_str_cmp(a, b));
	CHECK(sc_str_cmp(a, a));
	return 0;
}
""")

bug("poll-edge-lost", prop="C33", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	if (new_mask == SC_SOCK_EDGE) {\n		new_mask = SC_SOCK_NONE;\n	}\n\n	if (old_mask == new_mask) {\n		return 0;\n	}\n\n	op = new_mask == SC_SOCK_NONE ? EPOLL_CTL_DEL : EPOLL_CTL_MOD;",
            "	if (old_mask == new_mask) {\n		return 0;\n	}\n\n	op = (new_mask & ~SC_SOCK_EDGE) == 0 ? EPOLL_CTL_DEL : EPOLL_CTL_MOD;\n	if (op == EPOLL_CTL_DEL && old_mask != (SC_SOCK_READ | SC_SOCK_EDGE)) {\n		new_mask = SC_SOCK_NONE;\n	}")],
    needs="an edge triggered descriptor watched for READ whose READ is deleted, but not EDGE, and which is added again",
    breaks="EDGE is still recorded, so that the next add modifies a descriptor the kernel does not watch",
    demo=HEAD + """#include "sc_sock.h"
#include <unistd.h>
int main(void)
{
	struct sc_sock_poll p;
	struct sc_sock_fd f = {0};
	int fd[2];
	CHECK(sc_sock_poll_init(&p) == 0 && pipe(fd) == 0);
	f.fd = fd[0];
	CHECK(write(fd[1], "x", 1) == 1);
	CHECK(sc_sock_poll_add(&p, &f, SC_SOCK_READ | SC_SOCK_EDGE, &f) == 0);
	CHECK(sc_sock_poll_del(&p, &f, SC_SOCK_READ, &f) == 0);
	CHECK(sc_sock_poll_wait(&p, 0) == 0);
	CHECK(sc_sock_poll_add(&p, &f, SC_SOCK_READ, &f) == 0);
	CHECK(sc_sock_poll_wait(&p, 0) == 1);
	CHECK(sc_sock_poll_wait(&p, 0) == 1);
	sc_sock_poll_term(&p);
	return 0;
}
""")

bug("heap-linear-growth", prop="C38", files=["heap/sc_heap.c", "heap/sc_heap.h"],
    edits=[("heap/sc_heap.c", "		cap = h->cap != 0 ? h->cap * 2 : 4;", "		cap = h->cap + 4;")],
    needs="many elements in one heap",
    breaks="the memory is allocated again for every fourth element: growing to n elements copies n squared",
    demo=HEAD + """#include "sc_heap.h"
static int calls;
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { calls++; return __real_realloc(p, n); }
int main(void)
{
	struct sc_heap h;
	CHECK(sc_heap_init(&h, 0));
	for (int i = 0; i < 10000; i++)
		CHECK(sc_heap_add(&h, i, NULL));
	CHECK(calls < 100);
	sc_heap_term(&h);
	return 0;
}
""", flags="-Wl,--wrap=realloc")

bug("buf-limit-rounded", prop="C11", files=["buffer/sc_buf.c", "buffer/sc_buf.h"],
    edits=[("buffer/sc_buf.c", "		if (size > b->limit || b->cap", "		if (b->cap + len > b->limit || b->cap")],
    needs="a limit that is no multiple of the page size",
    breaks="the capacity is rounded up beyond the limit",
    demo=HEAD + """#include "sc_buf.h"
int main(void)
{
	struct sc_buf b;
	char x[4500] = {0};
	CHECK(sc_buf_init(&b, 0));
	sc_buf_limit(&b, 5000);
	sc_buf_put_raw(&b, x, sizeof(x));
	CHECK(sc_buf_cap(&b) <= 5000);
	sc_buf_term(&b);
	return 0;
}
""")

bug("str-shared-scratch", prop="C39", files=["string/sc_str.c", "string/sc_str.h"],
    edits=[("string/sc_str.c", "	char tmp[1024];\n", "	static char tmp[1024];\n")],
    needs="two threads that create formatted strings of their own at the same time",
    breaks="a formatted string contains the text of another thread",
    demo=HEAD + """#include <pthread.h>
#include <stdarg.h>
#include "sc_str.h"
static int depth;
static void *other(void *arg)
{
	char *s = sc_str_create_fmt("%s", "other text");
	sc_str_destroy(&s);
	return arg;
}
/* another thread creates a string between the formatting and the copy */
int __real_vsnprintf(char *b, size_t n, const char *f, va_list va);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list va)
{
	int rc = __real_vsnprintf(b, n, f, va);
	pthread_t t;
	if (depth++ == 0) {
		pthread_create(&t, NULL, other, NULL);
		pthread_join(t, NULL);
	}
	return rc;
}
int main(void)
{
	char *s = sc_str_create_fmt("%d bottles", 99);
	CHECK(s && !strcmp(s, "99 bottles"));
	sc_str_destroy(&s);
	return 0;
}
""", flags="-Wl,--wrap=vsnprintf -U_FORTIFY_SOURCE -fno-builtin")

bug("map-term-empty", prop="C02", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "		if (m->mem != sc_map_empty_##name.mem) {                       \\\n			sc_map_free(&m->mem[-1]);                              \\\n			*m = ",
            "		if (m->mem != sc_map_empty_##name.mem && m->size != 0) {       \\\n			sc_map_free(&m->mem[-1]);                              \\\n			*m = ")],
    needs="destroying a map that has memory but no elements (any more)",
    breaks="the memory of the map is never released",
    demo=HEAD + """#include "sc_map.h"
static long live;
void *__real_calloc(size_t n, size_t m);
void __real_free(void *p);
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); live += p != NULL; return p; }
void __wrap_free(void *p) { live -= p != NULL; __real_free(p); }
int main(void)
{
	for (int n = 0; n < 40; n++) {
		struct sc_map_64 m;
		CHECK(sc_map_init_64(&m, 0, 0));
		for (int i = 0; i < n; i++)
			sc_map_put_64(&m, i, i);
		for (int i = 0; i < n; i++)
			sc_map_del_64(&m, i);
		sc_map_term_64(&m);
		CHECK(live == 0);
	}
	return 0;
}
""", flags="-Wl,--wrap=calloc -Wl,--wrap=free")

bug("map-threshold-wraps", prop="C38", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "		m->load_fac = f;                                               \\\n		m->remap = (uint32_t) (m->cap * ((double) m->load_fac / 100)); \\",
            "		m->load_fac = f;                                               \\\n		m->remap = m->cap * m->load_fac / 100;                         \\")],
    needs="a requested capacity above 2^32 / load factor",
    breaks="the map grows long before the requested capacity is used",
    demo=HEAD + """#include "sc_map.h"
/* memory that is never there: only the size of the requests matters */
static size_t calls, last;
void *__real_calloc(size_t n, size_t m);
void *__wrap_calloc(size_t n, size_t m) { calls++; last = n; return __real_calloc(n, m); }
int main(void)
{
	struct sc_map_32 m;
	/* 2^26 slots at 75 percent hold 50331648 elements, put a fifth of them */
	CHECK(sc_map_init_32(&m, 1u << 26, 75));
	for (uint32_t i = 1; i < 10000000; i++)
		sc_map_put_32(&m, i, i);
	CHECK(calls == 1 && sc_map_size_32(&m) == 9999999);
	sc_map_term_32(&m);
	return 0;
}
""", flags="-O2 -Wl,--wrap=calloc")

bug("timer-jump-narrow", prop="C07", files=["timer/sc_timer.c", "timer/sc_timer.h"],
    edits=[("timer/sc_timer.c", "(uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT))", "sc_timer_min((uint32_t) (time / TICK), WHEEL_COUNT)")],
    needs="a jump of the clock by a little more than a multiple of 2^32 ticks",
    breaks="timers that are due are not delivered by the poll after the jump",
    demo=HEAD + """#include "sc_timer.h"
static int fired;
static void cb(void *arg, uint64_t timeout, uint64_t type, void *data) { fired++; }
int main(void)
{
	struct sc_timer t;
	sc_timer_init(&t, 0);
	for (int i = 0; i < 16; i++)
		CHECK(sc_timer_add(&t, 16 * i, 1, NULL) != SC_TIMER_INVALID);
	sc_timer_timeout(&t, ((uint64_t) 1 << 36) + 20, NULL, cb);
	CHECK(fired == 16);
	sc_timer_term(&t);
	return 0;
}
""")

bug("timer-id-narrow", prop="C07", files=["timer/sc_timer.c", "timer/sc_timer.h"],
    edits=[("timer/sc_timer.c", "	id = (((uint64_t) seq) << 32u) | pos;", "	id = (((uint64_t) (uint16_t) seq) << 32u) | pos;")],
    needs="more than 65536 timers due within the same tick, one of the later ones being cancelled",
    breaks="another timer than the one asked for is cancelled",
    demo=HEAD + """#include "sc_timer.h"
#define N 66000
static uint64_t id[N];
static int fired[N];
static void cb(void *arg, uint64_t timeout, uint64_t type, void *data) { fired[type]++; }
int main(void)
{
	struct sc_timer t;
	sc_timer_init(&t, 0);
	for (int i = 0; i < N; i++) {
		id[i] = sc_timer_add(&t, 50, (uint64_t) i, NULL);
		CHECK(id[i] != SC_TIMER_INVALID);
	}
	for (int i = 0; i < N; i++)
		if (i % 3 == 0)
			sc_timer_cancel(&t, &id[i]);
	sc_timer_timeout(&t, 100, NULL, cb);
	for (int i = 0; i < N; i++)
		CHECK(fired[i] == (i % 3 != 0));
	sc_timer_term(&t);
	return 0;
}
""", flags="-O2")

bug("send-chunked", prop="C36", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", """	n = (int) send(s->fdt.fd, buf, (sc_send_recv_size_t) len, flags);
""", """	n = (int) send(s->fdt.fd, buf, (sc_send_recv_size_t) (len > 65536 ? 65536 : len), flags);
	if (n == 65536 && len > 65536) {
		// Long buffers are sent piecewise.
		int m = sc_sock_send(s, buf + n, len - n, flags);
		n = m < 0 ? m : n + m;
	}
""")],
    needs="sending more than 64 KB through a nonblocking socket whose peer reads too slowly",
    breaks="bytes that were sent are reported as not sent: the caller sends them twice",
    demo=HEAD + """#include "sc_sock.h"
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
static char buf[4 << 20], in[65536];
int main(void)
{
	struct sc_sock s;
	int fds[2];
	/* all sizes of the send buffer */
	for (int size = 20000; size < 220000; size += 500) {
	long sent = 0, got = 0;
	CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, fds));
	fcntl(fds[0], F_SETFL, O_NONBLOCK);
	fcntl(fds[1], F_SETFL, O_NONBLOCK);
	setsockopt(fds[0], SOL_SOCKET, SO_SNDBUF, &size, sizeof(size));
	sc_sock_init(&s, 0, false, SC_SOCK_UNIX);
	s.fdt.fd = fds[0];
	for (int i = 0; i < 5; i++) {
		int n = sc_sock_send(&s, buf, sizeof(buf), 0);
		CHECK(n > 0 || errno == EAGAIN);
		sent += n > 0 ? n : 0;
	}
	for (long n; (n = read(fds[1], in, sizeof(in))) > 0;)
		got += n;
	CHECK(sent == got);
	close(fds[0]);
	close(fds[1]);
	}
	return 0;
}
""")

bug("perf-fd-zero", prop="C32", files=["perf/sc_perf.c", "perf/sc_perf.h"],
    edits=[("perf/sc_perf.c", "		close(sc_perf_items[i].fd);", "		if (sc_perf_items[i].fd > 0) {\n			close(sc_perf_items[i].fd);\n		}")],
    needs="measuring in a process whose standard input is closed",
    breaks="a counter is never closed",
    demo=HEAD + """#include "sc_perf.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
/* counters that count nothing, in any descriptor that is free */
long __wrap_syscall(long n, ...) { return open("/dev/zero", O_RDONLY); }
int __wrap_prctl(int what, ...) { return 0; }
int main(void)
{
	int fd;
	close(0);
	for (int i = 0; i < 3; i++) {
		sc_perf_start();
		sc_perf_end();
		fd = open("/dev/null", O_RDONLY);
		CHECK(fd == 0);
		close(fd);
	}
	return 0;
}
""", flags="-Wl,--wrap=syscall -Wl,--wrap=prctl")

bug("map-clear-span", prop="C01", files=["map/sc_map.c", "map/sc_map.h"],
    edits=[("map/sc_map.c", "for (uint32_t i = 0; i < m->cap; i++) {                \\\n				m->mem[i].key = 0; ",
            "for (uint16_t i = 0; i < (uint16_t) (m->cap - 1);      \\\n			     i++) {                                            \\\n				m->mem[i].key = 0;                             \\\n			}                                                      \\\n			for (uint32_t i = (m->cap - 1) & 0xffff0000u;          \\\n			     i < m->cap; i++) {                                \\\n				m->mem[i].key = 0; ")],
    needs="clearing a map of more than 65536 slots; keys whose slot is neither in the first nor in the last span",
    breaks="cleared keys are found again",
    demo=HEAD + """#include "sc_map.h"
int main(void)
{
	struct sc_map_32 m;
	CHECK(sc_map_init_32(&m, 0, 0));
	for (uint32_t i = 1; i < 150000; i++)
		sc_map_put_32(&m, i, i);
	sc_map_clear_32(&m);
	for (uint32_t i = 1; i < 150000; i++) {
		sc_map_get_32(&m, i);
		CHECK(!sc_map_found(&m));
	}
	sc_map_term_32(&m);
	return 0;
}
""")

bug("array-sort-chunk", prop="C04", files=["array/sc_array.h"],
    edits=[("array/sc_array.h", "	(qsort((a)->elems, (a)->size, sizeof(*(a)->elems), cmp))",
            "	(qsort((a)->elems, (a)->size > 65536 ? 65536 : (a)->size,              \\\n	       sizeof(*(a)->elems), cmp))")],
    needs="sorting an array of more than 65536 elements", breaks="only a part of the array is sorted",
    demo=HEAD + """#include "sc_array.h"
static int cmp(const void *a, const void *b) { return *(const int *) a - *(const int *) b; }
int main(void)
{
	struct sc_array_int a;
	sc_array_init(&a);
	for (int i = 0; i < 70000; i++)
		sc_array_add(&a, 70000 - i);
	sc_array_sort(&a, cmp);
	for (int i = 0; i < 70000; i++)
		CHECK(sc_array_at(&a, i) == i + 1);
	sc_array_term(&a);
	return 0;
}
""")

bug("queue-oom-rotate", prop="C03", files=["queue/sc_queue.h"],
    edits=[("queue/sc_queue.h", "			_cap = (q)->cap * 2;                                   \\\n",
            "			_cap = (q)->cap * 2;                                   \\\n			if ((q)->first >= 64) {                                \\\n				(q)->last = (q)->cap - 1;                      \\\n			}                                                      \\\n")],
    needs="an allocation that fails when a queue of at least 128 slots grows while its first element is at slot 64 or later",
    breaks="elements are lost when adding fails for lack of memory",
    demo=HEAD + """#include <stdlib.h>
static int fail;
static void *my_calloc(size_t a, size_t b) { return fail ? NULL : calloc(a, b); }
#define calloc my_calloc
#include "sc_queue.h"
int main(void)
{
	struct sc_queue_int q;
	sc_queue_init(&q);
	for (int i = 0; i < 255; i++)
		sc_queue_add_last(&q, i);
	for (int i = 0; i < 100; i++)
		sc_queue_del_first(&q);
	for (int i = 255; i < 355; i++)
		sc_queue_add_last(&q, i);
	CHECK(sc_queue_size(&q) == 255);
	fail = 1;
	sc_queue_add_last(&q, 355);
	CHECK(sc_queue_oom(&q));
	CHECK(sc_queue_size(&q) == 255);
	for (int i = 0; i < 255; i++)
		CHECK(sc_queue_at(&q, i) == 100 + i);
	sc_queue_term(&q);
	return 0;
}
""")

bug("sock-peek-eof", prop="C36", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	if (n == 0) {\n		errno = EOF;\n		return -1;", "	if (n == 0 && (flags & MSG_PEEK)) {\n		errno = EAGAIN;\n		return -1;\n	} else if (n == 0) {\n		errno = EOF;\n		return -1;")],
    needs="looking at what is there with MSG_PEEK after the peer has closed", breaks="the end of the stream looks like no data yet",
    demo=HEAD + """#include "sc_sock.h"
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>
int main(void)
{
	struct sc_sock s;
	int fds[2];
	char b[8];
	CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, fds));
	sc_sock_init(&s, 0, false, SC_SOCK_UNIX);
	s.fdt.fd = fds[0];
	CHECK(write(fds[1], "ab", 2) == 2);
	close(fds[1]);
	CHECK(sc_sock_recv(&s, b, 8, MSG_PEEK) == 2);
	CHECK(sc_sock_recv(&s, b, 8, 0) == 2);
	errno = 0;
	CHECK(sc_sock_recv(&s, b, 8, MSG_PEEK) == -1);
	CHECK(errno != EAGAIN);
	sc_sock_term(&s);
	return 0;
}
""")

bug("mmap-sync-batch", prop="C30", files=["memory-map/sc_mmap.c", "memory-map/sc_mmap.h"],
    edits=[("memory-map/sc_mmap.c", "	rc = msync(p, len, MS_SYNC);", "	rc = 0;\n	while (len > (1u << 20) && rc == 0) {\n		rc = msync(p, (size_t) 1 << 20, MS_SYNC);\n		p += 1u << 20;\n		len -= 1u << 20;\n		if (len < 4096) {\n			len = 0;\n		}\n	}\n	if (rc == 0 && len > 0) {\n		rc = msync(p, len, MS_SYNC);\n	}")],
    needs="syncing a range that ends less than a page after a multiple of 1 MiB",
    breaks="the last page is not written back",
    demo=HEAD + """#include "sc_mmap.h"
#include <fcntl.h>
#include <stdint.h>
#include <sys/mman.h>
static char *lo, *hi;
int __wrap_msync(void *p, size_t n, int f)
{
	if (!lo || (char *) p < lo)
		lo = p;
	if (!hi || (char *) p + n > hi)
		hi = (char *) p + n;
	return 0;
}
int main(void)
{
	struct sc_mmap m;
	CHECK(!sc_mmap_init(&m, "f", O_RDWR | O_CREAT, PROT_READ | PROT_WRITE, MAP_SHARED, 0, 2u << 20));
	CHECK(!sc_mmap_msync(&m, 0, (1u << 20) + 100));
	CHECK(lo <= (char *) m.ptr && hi >= (char *) m.ptr + (1u << 20) + 100);
	sc_mmap_term(&m);
	return 0;
}
""", flags="-Wl,--wrap=msync")

bug("log-off-error", prop="C28", files=["logger/sc_log.c", "logger/sc_log.h"],
    edits=[("logger/sc_log.c", "	curr = sc_atomic_load(&sc_log.level);\n	if (level < curr) {", "	curr = sc_atomic_load(&sc_log.level);\n	if (level < curr && level < SC_LOG_ERROR) {")],
    needs="a build with C11 atomics and the level OFF", breaks="errors are logged although logging is off",
    demo=HEAD + """#include "sc_log.h"
static int n;
static int cb(void *a, enum sc_log_level l, const char *f, va_list v) { n++; return 0; }
int main(void)
{
	CHECK(!sc_log_init());
	sc_log_set_stdout(false);
	sc_log_set_callback(NULL, cb);
	CHECK(!sc_log_set_level("OFF"));
	sc_log_error("x");
	CHECK(n == 0);
	sc_log_term();
	return 0;
}
""", flags="-std=gnu11")

bug("notify-second-at", prop="C37", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	if (addr.sun_path[0] == '@') {\n		addr.sun_path[0] = '\\0';\n	}", "	if (*s == '@') {\n		*strrchr(addr.sun_path, '@') = '\\0';\n	}")],
    needs="NOTIFY_SOCKET naming an abstract socket with a second '@' in its name", breaks="the message goes to another address",
    demo=HEAD + """#include "sc_sock.h"
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <stddef.h>
int main(void)
{
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	char name[64], b[32];
	int fd = socket(AF_UNIX, SOCK_DGRAM, 0);
	snprintf(name, sizeof(name), "@demo@%d", (int) getpid());
	strcpy(a.sun_path, name);
	a.sun_path[0] = 0;
	CHECK(!bind(fd, (void *) &a, (socklen_t) (offsetof(struct sockaddr_un, sun_path) + strlen(name))));
	setenv("NOTIFY_SOCKET", name, 1);
	CHECK(sc_sock_notify_systemd("READY=1") == 0);
	CHECK(recv(fd, b, sizeof(b), MSG_DONTWAIT) == 7);
	return 0;
}
""")

bug("perf-scale-min", prop="C32", files=["perf/sc_perf.c", "perf/sc_perf.h"],
    edits=[("perf/sc_perf.c", "			items[i].active = n;", "			if (n < 0.001) {\n				n = 0.001;\n			}\n			items[i].active = n;")],
    needs="a counter that was scheduled for less than a thousandth of the time",
    breaks="its value is not scaled to the whole time",
    demo=HEAD + PERFWRAP.replace("{ memset(b, 0, n); return", "{ uint64_t v[3] = {7, 10000000, 100}; memcpy(b, v, n); return") + """int main(void)
{
	char b[4096] = {0};
	freopen("out", "w+", stdout);
	sc_perf_start();
	now += 2000000000;
	sc_perf_end();
	fflush(stdout);
	rewind(stdout);
	fread(b, 1, sizeof(b) - 1, stdout);
	CHECK(strstr(b, "| 700000.00 "));
	return 0;
}
""", flags="-Wl,--wrap=syscall,--wrap=prctl,--wrap=close,--wrap=read,--wrap=clock_gettime")

bug("own-shrink", prop="C40", files=["buffer/sc_buf.c", "buffer/sc_buf.h"],
    edits=[("buffer/sc_buf.c", "tmp = sc_buf_realloc(b->mem, len);", "tmp = realloc(b->mem, len);")],
    needs="a build with SC_HAVE_CONFIG_H and an allocator of the application, and a buffer that is shrunk by at least a page",
    breaks="the memory of the application's allocator is given to the C library's realloc()",
    aux=[("config.h", OWN % dict(m="buf"))],
    demo=HEAD + OWNC + """#include "sc_buf.h"
int main(void)
{
	struct sc_buf b;
	CHECK(sc_buf_init(&b, 64));
	sc_buf_put_str(&b, "text");
	CHECK(sc_buf_reserve(&b, 9000));
	CHECK(sc_buf_shrink(&b, 1000));
	CHECK(strcmp(sc_buf_get_str(&b), "text") == 0);
	sc_buf_term(&b);
	CHECK(live == 0);
	return 0;
}
""", flags="-DSC_HAVE_CONFIG_H")
bug("own-poller-refused", prop="C40", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	fds = epoll_create1(0);\n	if (fds == -1) {\n", "	fds = epoll_create1(0);\n	if (fds < 0) {\n		free(p->events);\n		p->events = NULL;\n")],
    needs="a build with an allocator of the application and a kernel that refuses another poller",
    breaks="the event list of the poller is freed with the C library's free()",
    aux=[("config.h", OWN % dict(m="sock"))],
    demo=HEAD + OWNC + """#include "sc_sock.h"
#include <sys/resource.h>
#include <unistd.h>
int main(void)
{
	struct sc_sock_poll p;
	struct rlimit l;
	CHECK(sc_sock_poll_init(&p) == 0 && sc_sock_poll_term(&p) == 0 && live == 0);
	getrlimit(RLIMIT_NOFILE, &l);
	l.rlim_cur = 64;
	CHECK(setrlimit(RLIMIT_NOFILE, &l) == 0);
	while (dup(0) >= 0)
		;
	CHECK(sc_sock_poll_init(&p) == -1);
	CHECK(live == 0);
	return 0;
}
""", flags="-DSC_HAVE_CONFIG_H")

bug("poll-sixty-four", prop="C33", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "		sc_sock_poll_set_err(p, \"epoll_wait : %s \", strerror(errno));\n	}\n\n	return n;", "		sc_sock_poll_set_err(p, \"epoll_wait : %s \", strerror(errno));\n	}\n\n	// Report a limited number of events at once, the rest is left to the\n	// next call.\n	return n < 64 ? n : 64;")],
    needs="more than 64 edge triggered descriptors that become ready between two waits",
    breaks="the kernel has handed out the events behind the 64th one, they are never reported",
    demo=HEAD + """#include "sc_sock.h"
#include <unistd.h>
#define N 150
static struct sc_sock_pipe pipes[N];
static int seen[N];
int main(void)
{
	struct sc_sock_poll p;
	int n, total = 0;
	CHECK(sc_sock_poll_init(&p) == 0);
	for (int i = 0; i < N; i++) {
		CHECK(sc_sock_pipe_init(&pipes[i], 0) == 0);
		CHECK(sc_sock_poll_add(&p, &pipes[i].fdt, SC_SOCK_READ | SC_SOCK_EDGE, &seen[i]) == 0);
		CHECK(sc_sock_pipe_write(&pipes[i], "x", 1) == 1);
	}
	while ((n = sc_sock_poll_wait(&p, 200)) > 0)
		for (int i = 0; i < n; i++) {
			int *c = sc_sock_poll_data(&p, i);
			CHECK(sc_sock_poll_event(&p, i) == SC_SOCK_READ);
			total += !*c;
			*c = 1;
		}
	CHECK(n == 0 && total == N);
	return 0;
}
""")
bug("connect-sixteen", prop="C35", files=["socket/sc_sock.c", "socket/sc_sock.h"],
    edits=[("socket/sc_sock.c", "	int rc, rv = 0;\n	sc_sock_int fd;\n	void *tmp;\n	struct addrinfo *sinfo = NULL, *p;", "	int rc, rv = 0, attempts = 0;\n	sc_sock_int fd;\n	void *tmp;\n	struct addrinfo *sinfo = NULL, *p;"),
           ("socket/sc_sock.c", "			if ((i == 0) ^ (p->ai_family == family)) {\n				continue;\n			}\n", "			if ((i == 0) ^ (p->ai_family == family)) {\n				continue;\n			}\n\n			if (++attempts > 16) {\n				break;\n			}\n")],
    needs="a name with more than 16 addresses of which only a later one accepts connections",
    breaks="the later addresses are not tried, the connection fails although one of them would accept it",
    demo=HEAD + """#include "sc_sock.h"
#include <netdb.h>
#include <unistd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#define N 24
static struct sockaddr_in sa[N];
static struct addrinfo ai[N];
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
	for (int i = 0; i < N; i++) {
		ai[i] = (struct addrinfo){.ai_family = AF_INET, .ai_socktype = SOCK_STREAM, .ai_addr = (void *) &sa[i], .ai_addrlen = sizeof(sa[i])};
		ai[i].ai_next = i + 1 < N ? &ai[i + 1] : NULL;
	}
	*r = ai;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { }
int main(void)
{
	struct sc_sock s;
	socklen_t n = sizeof(sa[0]);
	int l[2];
	for (int k = 0; k < 2; k++) {
		struct sockaddr_in b = {.sin_family = AF_INET};
		b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		l[k] = socket(AF_INET, SOCK_STREAM, 0);
		CHECK(bind(l[k], (void *) &b, sizeof(b)) == 0);
		getsockname(l[k], (void *) &b, &n);
		for (int i = 0; i < N; i++)
			if ((i == N - 1) == k)
				sa[i] = b;
	}
	/* nobody listens at the addresses but the last one */
	CHECK(listen(l[1], 5) == 0);
	sc_sock_init(&s, 0, true, AF_INET);
	CHECK(sc_sock_connect(&s, "h", "1", NULL, NULL) == 0);
	CHECK(sc_sock_term(&s) == 0);
	return 0;
}
""", flags="-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo")

bug("uri-port-modulo", prop="C14", files=["uri/sc_uri.c", "uri/sc_uri.h"], edits=[("uri/sc_uri.c", "			val = strtoul(ptr + 1, &parse_end, 10);",
     "			val = (unsigned int) strtoul(ptr + 1, &parse_end, 10);")],
    needs="a port between 2^32 and 2^64 whose lower 32 bits are at most 65535",
    breaks="the port is checked after it was cut to 32 bits, ports far beyond 65535 are accepted",
    demo="""#include "sc_uri.h"
#include <stdio.h>
#include <stdlib.h>
int main(void)
{
	static const char *bad[] = {"http://h:4294967376/", "http://h:8589934592/p", "a://u@h:1099511627856"};
	static const char *good[] = {"http://h:80/", "http://h:65535/p", "a://u@h:0"};
	for (int i = 0; i < 3; i++) {
		struct sc_uri *u = sc_uri_create(bad[i]);
		if (u) {
			printf("%s was accepted, port %s\\n", bad[i], u->port);
			return 1;
		}
		u = sc_uri_create(good[i]);
		if (!u)
			return 2;
		sc_uri_destroy(u);
	}
	return 0;
}
""")

bug("array-del-evaluates-twice", prop="C04", files=["array/sc_array.h"], edits=[("array/sc_array.h",
     "		if (_cnt > 0) {                                                \\\n			memmove(",
     "		if (_cnt > 0 && (size_t) (i) + 1 < (a)->size) {                \\\n			memmove(")],
    needs="an index expression with a side effect passed to the ordered delete",
    breaks="the index is evaluated a second time: the caller's variable advances twice and the element before the last is not moved",
    demo="""#include "sc_array.h"
#include <stdio.h>
int main(void)
{
	struct sc_array_int a;
	size_t k = 3;
	sc_array_init(&a);
	for (int i = 0; i < 6; i++)
		sc_array_add(&a, i);
	sc_array_del(&a, k++);
	if (k != 4 || sc_array_size(&a) != 5 || sc_array_at(&a, 3) != 4 || sc_array_at(&a, 4) != 5) {
		printf("k is %zu\\n", k);
		return 1;
	}
	k = 4;
	sc_array_del(&a, --k);
	if (k != 3 || sc_array_size(&a) != 4 || sc_array_at(&a, 3) != 5)
		return 2;
	sc_array_term(&a);
	return 0;
}
""")

bug("ini-nested-section", prop="C15", files=["ini/sc_ini.c", "ini/sc_ini.h"], edits=[("ini/sc_ini.c",
     "	char section[256] = {0}, key[256] = {0};\n	char *head, *end;\n",
     "	static char section[256], key[256];\n	char *head, *end;\n\n	*section = *key = '\\0';\n")],
    needs="a callback that parses another text while the first one is parsed",
    breaks="both parses share section and key, later items of the first text are reported in the section of the other text",
    demo="""#include "sc_ini.h"
#include <string.h>
#include <stdio.h>
static int bad, n;
static int in(void *a, int l, const char *s, const char *k, const char *v) { return 0; }
static int out(void *a, int l, const char *s, const char *k, const char *v)
{
	n++;
	if (strcmp(s, "main")) {
		printf("%s is in section %s\\n", k, s);
		bad = 1;
	}
	if (!strcmp(k, "include"))
		sc_ini_parse_string(NULL, in, "[sub]\\nx = 1\\n");
	return 0;
}
int main(void)
{
	if (sc_ini_parse_string(NULL, out, "[main]\\na = 1\\ninclude = file\\nb = 2\\n") != 0 || n != 3)
		return 2;
	return bad;
}
""")

if __name__ == "__main__":
    ids = sys.argv[1:] or list(B)
    for i in ids:
        kw = dict(B[i])
        kw["edits"] = [e for e in kw["edits"] if e[1] != e[2]]
        make(i, **kw)
