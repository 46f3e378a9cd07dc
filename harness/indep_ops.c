/* C39: the scripts.  Compiled with the race detector's instrumentation (the containers
 * of array, queue and list are macros); the input texts are shared by both threads. */
#define _GNU_SOURCE
#include "indep.h"
#include "sc.h"
#include "sc_array.h"
#include "sc_buf.h"
#include "sc_cond.h"
#include "sc_crc32.h"
#include "sc_heap.h"
#include "sc_ini.h"
#include "sc_list.h"
#include "sc_map.h"
#include "sc_mmap.h"
#include "sc_mutex.h"
#include "sc_option.h"
#include "sc_queue.h"
#include "sc_signal.h"
#include "sc_sock.h"
#include "sc_str.h"
#include "sc_thread.h"
#include "sc_time.h"
#include "sc_timer.h"
#include "sc_uri.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

/* shared input; never written to */
static char text[2][3][40] = {{"alpha", "beta,gamma;delta", "  trim me  "},
			      {"omega", "x;;y,z", "xx12xx"}};
static char keys[12][8] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11"};

/* ---- maps ---- */
#define MAPS(name, K, V, KEY, VAL, VREC)                                       \
	static void map_##name(struct tr *t)                                   \
	{                                                                      \
		struct sc_map_##name m;                                        \
		K k;                                                           \
		V v;                                                           \
		int n = 0;                                                     \
		reci(t, sc_map_init_##name(&m, t->v ? 0 : 2, t->v ? 60 : 0));  \
		for (int i = 0; i < 10; i++) {                                 \
			sc_map_put_##name(&m, KEY(i), VAL(i));                 \
			if (i % 4 == 0)                                        \
				reci(t, sc_map_found(&m) * 2 + sc_map_oom(&m)); \
		}                                                              \
		v = sc_map_put_##name(&m, KEY(3), VAL(30));                    \
		VREC(t, v);                                                    \
		v = sc_map_get_##name(&m, KEY(5 + 4 * t->v));                  \
		VREC(t, v);                                                    \
		reci(t, sc_map_found(&m));                                     \
		v = sc_map_del_##name(&m, KEY(7));                             \
		VREC(t, v);                                                    \
		v = sc_map_get_##name(&m, KEY(7));                             \
		reci(t, sc_map_found(&m));                                     \
		sc_map_foreach (&m, k, v)                                      \
			n++;                                                   \
		reci(t, n * 100 + (long) sc_map_size_##name(&m));              \
		sc_map_clear_##name(&m);                                       \
		sc_map_get_##name(&m, KEY(1));                                 \
		reci(t, sc_map_found(&m));                                     \
		sc_map_term_##name(&m);                                        \
		reci(t, 0);                                                    \
	}
#define KI(i) ((i) * 3 + t->v * 7)
#define KS(i) keys[i]
#define VI(i) ((i) + 5 * t->v)
#define VP(i) ((void *) keys[i])
#define VS(i) keys[i]
#define RI(t, v) reci(t, (long) (v))
#define RS(t, v) recs(t, v)
MAPS(int, int, int, KI, VI, RI)
MAPS(intv, int, void *, KI, VP, RS)
MAPS(ints, int, const char *, KI, VS, RS)
MAPS(ll, long long, long long, KI, VI, RI)
MAPS(llv, long long, void *, KI, VP, RS)
MAPS(lls, long long, const char *, KI, VS, RS)
MAPS(32, uint32_t, uint32_t, KI, VI, RI)
MAPS(64, uint64_t, uint64_t, KI, VI, RI)
MAPS(64v, uint64_t, void *, KI, VP, RS)
MAPS(64s, uint64_t, const char *, KI, VS, RS)
MAPS(str, const char *, const char *, KS, VS, RS)
MAPS(sv, const char *, void *, KS, VP, RS)
MAPS(s64, const char *, uint64_t, KS, VI, RI)
MAPS(sll, const char *, long long, KS, VI, RI)

/* ---- array, queue, list ---- */
static int cmp_int(const void *a, const void *b)
{
	return *(const int *) a - *(const int *) b;
}
static void array(struct tr *t)
{
	struct sc_array_int a;
	int e, sum = 0;

	sc_array_init(&a);
	for (int i = 0; i < 12; i++) {
		sc_array_add(&a, (i * 5 + t->v) % 12);
		if (i % 5 == 0)
			reci(t, sc_array_oom(&a));
	}
	sc_array_sort(&a, cmp_int);
	reci(t, sc_array_at(&a, 4));
	sc_array_del(&a, 2);
	reci(t, sc_array_last(&a));
	sc_array_del_unordered(&a, 1);
	sc_array_del_last(&a);
	sc_array_foreach (&a, e)
		sum = sum * 3 + e;
	reci(t, sum);
	reci(t, (long) sc_array_size(&a));
	sc_array_clear(&a);
	sc_array_add(&a, 9);
	reci(t, sc_array_last(&a));
	sc_array_term(&a);
}
static void queue(struct tr *t)
{
	struct sc_queue_int q;
	int e, sum = 0;

	sc_queue_init(&q);
	for (int i = 0; i < 12; i++) {
		if ((i + t->v) % 3)
			sc_queue_add_last(&q, i);
		else
			sc_queue_add_first(&q, i);
		if (i % 5 == 0)
			reci(t, sc_queue_oom(&q));
	}
	reci(t, sc_queue_peek_first(&q));
	reci(t, sc_queue_peek_last(&q));
	reci(t, sc_queue_del_first(&q));
	reci(t, sc_queue_del_last(&q));
	sc_queue_foreach (&q, e)
		sum = sum * 3 + e;
	reci(t, sum);
	reci(t, (long) sc_queue_size(&q));
	sc_queue_clear(&q);
	reci(t, sc_queue_empty(&q));
	sc_queue_term(&q);
}
struct elem {
	int n;
	struct sc_list next;
};
static void list(struct tr *t)
{
	struct sc_list l, *it, *tmp;
	struct elem e[5];
	int sum = 0;

	sc_list_init(&l);
	for (int i = 0; i < 5; i++) {
		e[i].n = i;
		sc_list_init(&e[i].next);
		if ((i + t->v) % 2)
			sc_list_add_head(&l, &e[i].next);
		else
			sc_list_add_tail(&l, &e[i].next);
	}
	reci(t, (long) sc_list_count(&l));
	sc_list_del(&l, &e[2].next);
	sc_list_add_after(&l, &e[1].next, &e[2].next);
	sc_list_del(&l, &e[4].next);
	sc_list_add_before(&l, &e[0].next, &e[4].next);
	sc_list_foreach (&l, it)
		sum = sum * 7 + sc_list_entry(it, struct elem, next)->n;
	reci(t, sum);
	sc_list_foreach_safe_r (&l, tmp, it)
		sum = sum * 7 + sc_list_entry(it, struct elem, next)->n;
	reci(t, sum);
	reci(t, sc_list_entry(sc_list_head(&l), struct elem, next)->n);
	reci(t, sc_list_entry(sc_list_pop_tail(&l), struct elem, next)->n);
	reci(t, sc_list_entry(sc_list_pop_head(&l), struct elem, next)->n);
	sc_list_clear(&l);
	reci(t, sc_list_is_empty(&l));
}

/* ---- heap, timer ---- */
static void heap(struct tr *t)
{
	struct sc_heap h;
	struct sc_heap_data *d;

	reci(t, sc_heap_init(&h, t->v ? 0 : 3));
	for (int i = 0; i < 9; i++)
		sc_heap_add(&h, (i * 5 + t->v) % 9, keys[i]);
	reci(t, (long) sc_heap_size(&h));
	d = sc_heap_peek(&h);
	recs(t, d->data);
	for (int i = 0; i < 4; i++) {
		d = sc_heap_pop(&h);
		recs(t, d->data);
		reci(t, d->key);
	}
	sc_heap_clear(&h);
	reci(t, sc_heap_pop(&h) == NULL);
	sc_heap_term(&h);
}
static void on_timer(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	reci(arg, (long) (timeout * 10 + type));
	recs(arg, data);
}
static void timer(struct tr *t)
{
	struct sc_timer m;
	uint64_t id[24];

	sc_timer_init(&m, 100);
	for (int i = 0; i < 20; i++)
		id[i] = sc_timer_add(&m, (uint64_t) (t->v ? 20 : i * 13), (uint64_t) i, keys[i % 12]);
	reci(t, id[0] == SC_TIMER_INVALID);
	sc_timer_cancel(&m, &id[3]);
	reci(t, id[3] == SC_TIMER_INVALID);
	sc_timer_timeout(&m, 140, t, on_timer);
	reci(t, (long) sc_timer_timeout(&m, 150, t, on_timer));
	sc_timer_clear(&m);
	sc_timer_timeout(&m, 4000, t, on_timer);
	reci(t, 1);
	sc_timer_term(&m);
}

/* ---- buffer ---- */
static void buf(struct tr *t)
{
	struct sc_buf b, c;
	unsigned char raw[8] = {0};

	reci(t, sc_buf_init(&b, t->v ? 0 : 4));
	sc_buf_put_8(&b, 7);
	sc_buf_put_16(&b, 700);
	sc_buf_put_32(&b, 70000);
	sc_buf_put_64(&b, 7000000000);
	sc_buf_put_double(&b, 1.5 + t->v);
	sc_buf_put_bool(&b, true);
	sc_buf_put_str(&b, text[t->v][0]);
	sc_buf_put_fmt(&b, "%s-%d", text[t->v][1], t->v);
	sc_buf_put_blob(&b, text[t->v][2], 6);
	reci(t, (long) sc_buf_size(&b));
	reci(t, sc_buf_get_8(&b));
	reci(t, sc_buf_get_16(&b));
	reci(t, sc_buf_get_32(&b));
	reci(t, (long) sc_buf_get_64(&b));
	reci(t, (long) (sc_buf_get_double(&b) * 10));
	reci(t, sc_buf_get_bool(&b));
	recs(t, sc_buf_get_str(&b));
	recs(t, sc_buf_get_str(&b));
	rec(t, sc_buf_get_blob(&b, sc_buf_get_64(&b)), 6);
	sc_buf_compact(&b);
	reci(t, sc_buf_valid(&b));
	c = sc_buf_wrap(raw, 8, SC_BUF_REF);
	sc_buf_put_64(&c, 5);
	sc_buf_put_8(&c, 5);
	reci(t, sc_buf_valid(&c));
	sc_buf_set_data(&c, 0, "abc", 3);
	rec(t, raw, 8);
	sc_buf_term(&c);
	sc_buf_term(&b);
}
static void buf2(struct tr *t)
{
	struct sc_buf b, c;

	sc_buf_init(&b, 16);
	sc_buf_init(&c, 40);
	sc_buf_limit(&b, 4096);
	sc_buf_put_text(&b, "%s:%d", text[t->v][0], 3);
	sc_buf_put_text(&b, "/%s", text[t->v][1]);
	recs(t, sc_buf_rbuf(&b));
	sc_buf_move(&c, &b);
	recs(t, sc_buf_rbuf(&c));
	reci(t, (long) sc_buf_peek_32(&c));
	reci(t, sc_buf_reserve(&b, 5000));
	reci(t, sc_buf_valid(&b));
	sc_buf_clear(&b);
	reci(t, sc_buf_shrink(&b, 0));
	sc_buf_put_str_len(&b, text[t->v][1], 4);
	recs(t, sc_buf_get_str(&b));
	sc_buf_put_str(&b, NULL);
	recs(t, sc_buf_get_str(&b));
	sc_buf_get_64(&b);
	reci(t, sc_buf_valid(&b));
	sc_buf_term(&b);
	sc_buf_term(&c);
}

/* ---- strings ---- */
static void str(struct tr *t)
{
	char *s = sc_str_create(text[t->v][2]), *d;

	recs(t, s);
	sc_str_trim(&s, " x");
	recs(t, s);
	sc_str_append(&s, text[t->v][0]);
	recs(t, s);
	sc_str_replace(&s, "m", "MM");
	recs(t, s);
	sc_str_substring(&s, 1, 5);
	recs(t, s);
	d = sc_str_dup(s);
	reci(t, sc_str_cmp(s, d) + sc_str_len(d));
	sc_str_set_fmt(&d, "%s/%d", text[t->v][1], 41);
	recs(t, d);
	sc_str_set(&d, text[!t->v][1]);
	recs(t, d);
	sc_str_destroy(&s);
	sc_str_destroy(&d);
	s = sc_str_create_len("abcdef", 3);
	recs(t, s);
	sc_str_destroy(&s);
	s = sc_str_create_fmt("%d %s %300d", t->v, text[t->v][0], 1);
	recs(t, s);
	sc_str_destroy(&s);
}
static void token(struct tr *t)
{
	char *s = sc_str_create(text[t->v][1]), *save = NULL;
	char *raw = sc_str_create("a b-c");
	const char *tok;

	while ((tok = sc_str_token_begin(s, &save, ",;")) != NULL)
		recs(t, tok);
	sc_str_token_end(s, &save);
	recs(t, s);
	save = NULL;
	tok = sc_str_token_begin(raw, &save, t->v ? "-" : " ");
	recs(t, tok);
	tok = sc_str_token_begin(raw, &save, "-");
	recs(t, tok);
	sc_str_token_end(raw, &save);
	recs(t, raw);
	sc_str_destroy(&raw);
	sc_str_destroy(&s);
}

/* ---- texts ---- */
static char uris[2][2][60] = {{"http://user@host:8080/p/a?q=1#frag", "a:"},
			      {"ftp://[::1]/x", "http://h:99999/"}};
static void uri(struct tr *t)
{
	for (int i = 0; i < 2; i++) {
		struct sc_uri *u = sc_uri_create(uris[t->v][i]);
		reci(t, u != NULL);
		if (u) {
			recs(t, u->scheme);
			recs(t, u->userinfo);
			recs(t, u->host);
			recs(t, u->port);
			recs(t, u->path);
			recs(t, u->query);
			recs(t, u->fragment);
			recs(t, u->str);
		}
		sc_uri_destroy(u);
	}
}
static int on_item(void *arg, int line, const char *section, const char *key, const char *value)
{
	reci(arg, line);
	recs(arg, section);
	recs(arg, key);
	recs(arg, value);
	return 0;
}
static char inis[2][60] = {"[s]\nk=v\n more ; c\n[t]\na:b\n", "x = 1\n# c\n[q]\nbad\n"};
static void ini(struct tr *t)
{
	char name[8] = "ini_";
	FILE *f;

	reci(t, sc_ini_parse_string(t, on_item, inis[t->v]));
	name[3] = (char) ('0' + t->id);
	f = fopen(name, "w");
	fputs(inis[t->v], f);
	fclose(f);
	reci(t, sc_ini_parse_file(t, on_item, name));
	reci(t, sc_ini_parse_file(t, on_item, "none"));
	unlink(name);
}
static struct sc_option_item oitems[] = {{'a', "alpha"}, {'b', NULL}, {'g', "gamma"}};
static char *argvs[2][6] = {{"prog", "-a=1", "--gamma=xyz", "-b", "--none", "-z"},
			    {"prog", "--alpha", "-g=", "plain", "--gamma", "--"}};
static void option(struct tr *t)
{
	struct sc_option o = {oitems, 3, argvs[t->v]};
	char *val;

	for (int i = 1; i < 6; i++) {
		reci(t, sc_option_at(&o, i, &val));
		recs(t, val);
	}
}

/* ---- numbers ---- */
static void conv(struct tr *t)
{
	char b[32];

	recs(t, sc_bytes_to_size(b, sizeof(b), 1023 + (unsigned) t->v));
	recs(t, sc_bytes_to_size(b, sizeof(b), 123456789 << t->v));
	reci(t, sc_bytes_to_size(b, 3, 1 << 20) == NULL);
	reci(t, (long) sc_size_to_bytes(t->v ? "12 mb" : "1.5 GB"));
	reci(t, (long) sc_size_to_bytes("7kb"));
	reci(t, (long) sc_to_pow2(1000 + 1000 * (unsigned) t->v) + sc_is_pow2(64));
}
static unsigned char seeds[2][256];
static void rnd(struct tr *t)
{
	struct sc_rand r;
	char b[40];

	sc_rand_init(&r, seeds[t->v]);
	sc_rand_read(&r, b, 11);
	rec(t, b, 11);
	sc_rand_read(&r, b, 1);
	rec(t, b, 1);
	sc_rand_read(&r, b, 40);
	rec(t, b, 40);
}
static char cdata[1000];
static void crc(struct tr *t)
{
	uint32_t c = sc_crc32(0, cdata, t->v ? 1000 : 77);

	reci(t, c);
	reci(t, sc_crc32(c, cdata + 3, 800));
	reci(t, sc_crc32((uint32_t) t->v, cdata + 1, 5));
}
static void fmt(struct tr *t)
{
	char b[64], s[5];

	reci(t, sc_signal_snprintf(b, sizeof(b), "%d %u %s %lu %p", -5, 7u, text[t->v][0], 255ul, (void *) 0x1234));
	recs(t, b);
	reci(t, sc_signal_snprintf(s, sizeof(s), "%ld%llu", 123456L * (t->v + 1), 99ull));
	recs(t, s);
}
static void times(struct tr *t)
{
	uint64_t a = sc_time_mono_ns(), b = sc_time_mono_ms(), c = sc_time_ms(), d = sc_time_ns();

	reci(t, a > 0 && b > 0 && c > 0 && d > c);
	reci(t, sc_time_sleep(0));
	reci(t, sc_time_mono_ns() >= a);
}

/* ---- threads ---- */
static void mutex(struct tr *t)
{
	struct sc_mutex m, n;

	reci(t, sc_mutex_init(&m));
	reci(t, sc_mutex_init(&n));
	sc_mutex_lock(&m);
	sc_mutex_lock(&n);
	reci(t, 1);
	sc_mutex_unlock(&m);
	sc_mutex_unlock(&n);
	sc_mutex_lock(&m);
	sc_mutex_unlock(&m);
	reci(t, sc_mutex_term(&m) + sc_mutex_term(&n));
}
static void cond(struct tr *t)
{
	struct sc_cond c, d;

	reci(t, sc_cond_init(&c));
	reci(t, sc_cond_init(&d));
	sc_cond_signal(&c, text[t->v][0]);
	sc_cond_signal(&d, text[t->v][1]);
	recs(t, sc_cond_wait(&d));
	recs(t, sc_cond_wait(&c));
	reci(t, sc_cond_term(&c) + sc_cond_term(&d));
}
static void *thr_fn(void *arg)
{
	return arg;
}
static void thread(struct tr *t)
{
	struct sc_thread th;
	void *ret = NULL;

	sc_thread_init(&th);
	reci(t, sc_thread_start(&th, thr_fn, text[t->v][0]));
	reci(t, sc_thread_join(&th, &ret));
	recs(t, ret);
	reci(t, sc_thread_join(&th, &ret));
	recs(t, sc_thread_err(&th));
	reci(t, sc_thread_term(&th));
}

/* ---- files and sockets, on the real system ---- */
static void map_file(struct tr *t)
{
	struct sc_mmap m;
	char name[8] = "map_";

	name[3] = (char) ('0' + t->id);
	reci(t, sc_mmap_init(&m, name, O_RDWR | O_CREAT | O_TRUNC, PROT_READ | PROT_WRITE, MAP_SHARED, 0, 4096));
	memcpy(m.ptr, text[t->v][1], 8);
	reci(t, sc_mmap_msync(&m, 0, 4096));
	rec(t, m.ptr, 8);
	reci(t, sc_mmap_term(&m));
	reci(t, sc_mmap_init(&m, t->v ? "none" : "", O_RDONLY, PROT_READ, MAP_SHARED, 0, 10));
	recs(t, sc_mmap_err(&m));
	reci(t, sc_mmap_term(&m));
	unlink(name);
}
static void pipes(struct tr *t)
{
	struct sc_sock_pipe p;
	char b[8] = {0};

	reci(t, sc_sock_pipe_init(&p, 3));
	reci(t, sc_sock_pipe_write(&p, text[t->v][0], 5));
	reci(t, sc_sock_pipe_read(&p, b, 3));
	recs(t, b);
	reci(t, sc_sock_pipe_read(&p, b, 8));
	recs(t, b);
	recs(t, sc_sock_pipe_err(&p));
	reci(t, sc_sock_pipe_term(&p));
}
static void sock(struct tr *t)
{
	struct sc_sock l, c, a;
	char name[8] = "sock", b[128] = {0};

	name[3] = (char) ('0' + t->id);
	sc_sock_init(&l, 1, true, AF_UNIX);
	sc_sock_init(&c, 2, t->v, AF_UNIX);
	reci(t, sc_sock_listen(&l, name, NULL));
	reci(t, sc_sock_connect(&c, name, NULL, NULL, NULL));
	reci(t, sc_sock_accept(&l, &a));
	reci(t, sc_sock_send(&c, text[t->v][0], 5, 0));
	reci(t, sc_sock_recv(&a, b, 4, 0));
	recs(t, b);
	reci(t, sc_sock_local_str(&l, b, sizeof(b)) != NULL && strchr(b, '0' + t->id));
	reci(t, sc_sock_remote_str(&c, b, sizeof(b)) != NULL && strchr(b, '0' + t->id));
	sc_sock_print(&l, b, sizeof(b));
	reci(t, sc_sock_set_blocking(&c, false));
	reci(t, sc_sock_recv(&c, b, 4, 0));
	recs(t, sc_sock_error(&c));
	reci(t, sc_sock_term(&a));
	reci(t, sc_sock_term(&c));
	reci(t, sc_sock_term(&l));
	sc_sock_init(&c, 2, true, AF_UNIX);
	reci(t, sc_sock_connect(&c, t->v ? "no/where" : "nothing", NULL, NULL, NULL));
	recs(t, sc_sock_error(&c));
	reci(t, sc_sock_term(&c));
	unlink(name);
}
static void inet(struct tr *t)
{
	struct sc_sock s;
	char b[128];

	sc_sock_init(&s, 0, true, AF_INET);
	reci(t, sc_sock_listen(&s, "127.0.0.1", "0"));
	reci(t, sc_sock_local_str(&s, b, sizeof(b)) && !strncmp(b, "127.0.0.1:", 10));
	reci(t, sc_sock_set_rcvtimeo(&s, 100) + sc_sock_set_sndtimeo(&s, 100));
	reci(t, sc_sock_term(&s));
	sc_sock_init(&s, 0, true, AF_INET);
	reci(t, sc_sock_listen(&s, "127.0.0.1", t->v ? "port" : "70000x"));
	recs(t, sc_sock_error(&s));
	sc_sock_term(&s);
}
static void polls(struct tr *t)
{
	struct sc_sock_poll p;
	struct sc_sock_pipe a;
	struct sc_sock_fd bad = {.fd = 9999};

	reci(t, sc_sock_poll_init(&p));
	reci(t, sc_sock_pipe_init(&a, 3));
	reci(t, sc_sock_poll_add(&p, &a.fdt, SC_SOCK_READ, text[t->v][0]));
	reci(t, sc_sock_poll_wait(&p, 0));
	sc_sock_pipe_write(&a, "x", 1);
	reci(t, sc_sock_poll_wait(&p, 0));
	recs(t, sc_sock_poll_data(&p, 0));
	reci(t, sc_sock_poll_event(&p, 0));
	reci(t, sc_sock_poll_add(&p, &bad, t->v ? SC_SOCK_READ : SC_SOCK_WRITE, NULL));
	recs(t, sc_sock_poll_err(&p));
	reci(t, sc_sock_poll_del(&p, &a.fdt, SC_SOCK_READ, NULL));
	reci(t, sc_sock_poll_wait(&p, 0));
	sc_sock_pipe_term(&a);
	reci(t, sc_sock_poll_term(&p));
}

#define S(f) {#f, f}
const struct script scripts[] = {
	S(map_int), S(map_intv), S(map_ints), S(map_ll), S(map_llv), S(map_lls), S(map_32), S(map_64),
	S(map_64v), S(map_64s), S(map_str), S(map_sv), S(map_s64), S(map_sll), S(array), S(queue),
	S(list), S(heap), S(timer), S(buf), S(buf2), S(str), S(token), S(uri), S(ini), S(option),
	S(conv), S(rnd), S(crc), S(fmt), S(times), S(mutex), S(cond), S(thread), S(map_file),
	S(pipes), S(sock), S(inet), S(polls),
};
const int nscripts = sizeof(scripts) / sizeof(*scripts);

static void __attribute__((constructor)) fill(void)
{
	for (int i = 0; i < 256; i++) {
		seeds[0][i] = (unsigned char) (i * 7);
		seeds[1][i] = (unsigned char) (i * 13 + 1);
	}
	for (int i = 0; i < 1000; i++)
		cdata[i] = (char) (i * 31 + i / 7);
}
