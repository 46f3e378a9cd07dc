/* C38: every sequence of phases (single adds and deletes, fills, drains, long add/delete cycles) on every
 * container: contents as a plain sequence says, memory and allocations within a fixed proportion. */
#include "mc.h"
#include "sc_array.h"
#include "sc_buf.h"
#include "sc_heap.h"
#include "sc_map.h"
#include "sc_queue.h"
#include "sc_timer.h"

#include <stdlib.h>
#include <string.h>

#define MAXE 300000
/* the elements: serial numbers first..next-1 */
static long first, next, maxn, started;
static size_t unit, extra; /* bytes per element, fixed allowance */
static int cfg;

static union {
	struct sc_map_64 m64;
	struct sc_map_32 m32;
	struct sc_map_str mstr;
	struct sc_map_intv mintv;
	struct sc_array_int ai;
	struct sc_array_ll al;
	struct sc_queue_int qi;
	struct sc_queue_ptr qp;
	struct sc_heap h;
	struct sc_timer t;
	struct sc_buf b;
} u;

static const uint32_t lfs[] = {0, 25, 50, 95};
static const uint32_t caps[] = {0, 1, 16, 100};

struct cont {
	const char *name;
	int ncfg;
	bool lifo, fifo; /* possible removals */
	void (*init)(void);
	void (*add)(long v);
	void (*rem)(long v, bool newest);
	void (*clear)(void);
	size_t (*size)(void);
	void (*term)(void);
};

static char skey[MAXE][12];

#define MAP(n, K, KEY, V, VAL)                                                 \
	static void mi_##n(void)                                               \
	{                                                                      \
		uint32_t lf = lfs[cfg / 4], cap = caps[cfg % 4];               \
		MC_CHECK(sc_map_init_##n(&u.m##n, cap, lf), "init", "init");   \
		unit = sizeof(*u.m##n.mem) * 100 / (lf ? lf : 75) + 1;         \
		extra = sizeof(*u.m##n.mem) * (cap + 8);                       \
	}                                                                      \
	static void ma_##n(long v)                                             \
	{                                                                      \
		sc_map_put_##n(&u.m##n, KEY, VAL);                             \
		MC_CHECK(!sc_map_oom(&u.m##n), "oom", "out of memory");        \
		MC_CHECK(!sc_map_found(&u.m##n), "found", "key was there");    \
	}                                                                      \
	static void mr_##n(long v, bool newest)                                \
	{                                                                      \
		(void) newest;                                                 \
		V x = sc_map_del_##n(&u.m##n, KEY);                            \
		MC_CHECK(sc_map_found(&u.m##n) && x == VAL, "del",             \
			 "key %ld was lost", v);                               \
	}                                                                      \
	static void mc_##n##_(void) { sc_map_clear_##n(&u.m##n); }             \
	static size_t ms_##n(void) { return sc_map_size_##n(&u.m##n); }        \
	static void mt_##n(void) { sc_map_term_##n(&u.m##n); }
#define VMAP(n) "map " #n, 16, 1, 1, mi_##n, ma_##n, mr_##n, mc_##n##_, ms_##n, mt_##n
/* dense keys make deletions of the many scan the whole cluster */
static bool large;
#define K64(v) (large ? (uint64_t) (v) * 0x9e3779b97f4a7c15u : (uint64_t) (v + 1) << 3)
#define K32(v) (large ? (int) ((uint32_t) (v) * 2654435761u) : (int) (v))

MAP(64, uint64_t, K64(v), uint64_t, (uint64_t) v + 7)
MAP(str, char *, skey[v], const char *, skey[v])
MAP(intv, int, K32(v), void *, (void *) &skey[v])

#define ARR(x)                                                                 \
	static void ai_##x(void)                                               \
	{                                                                      \
		sc_array_init(&u.x);                                           \
		unit = sizeof(*u.x.elems);                                     \
		extra = 8 * unit;                                              \
	}                                                                      \
	static void aa_##x(long v)                                             \
	{                                                                      \
		sc_array_add(&u.x, v);                                         \
		MC_CHECK(!sc_array_oom(&u.x), "oom", "out of memory");         \
		MC_CHECK(sc_array_last(&u.x) == v, "last", "wrong last");      \
	}                                                                      \
	static void ar_##x(long v, bool newest)                                \
	{                                                                      \
		size_t i = newest ? sc_array_size(&u.x) - 1 : 0;               \
		MC_CHECK(sc_array_at(&u.x, i) == v, "at", "element lost");     \
		if (newest)                                                    \
			sc_array_del_last(&u.x);                               \
		else                                                           \
			sc_array_del(&u.x, i);                                 \
	}                                                                      \
	static void ac_##x(void) { sc_array_clear(&u.x); }                     \
	static size_t as_##x(void) { return sc_array_size(&u.x); }             \
	static void at_##x(void) { sc_array_term(&u.x); }
#define VARR(x) "array " #x, 1, 1, 1, ai_##x, aa_##x, ar_##x, ac_##x, as_##x, at_##x
ARR(ai)
ARR(al)

#define QUE(x, T)                                                              \
	static void qi_##x(void)                                               \
	{                                                                      \
		sc_queue_init(&u.x);                                           \
		unit = sizeof(*u.x.elems);                                     \
		extra = 8 * unit;                                              \
	}                                                                      \
	static void qa_##x(long v)                                             \
	{                                                                      \
		/* cfg 1: mirrored */                                          \
		if (cfg)                                                       \
			sc_queue_add_first(&u.x, (T) v);                       \
		else                                                           \
			sc_queue_add_last(&u.x, (T) v);                        \
		MC_CHECK(!sc_queue_oom(&u.x), "oom", "out of memory");         \
	}                                                                      \
	static void qr_##x(long v, bool newest)                                \
	{                                                                      \
		long g;                                                        \
		if (newest == (cfg == 0))                                      \
			g = (long) sc_queue_del_last(&u.x);                    \
		else                                                           \
			g = (long) sc_queue_del_first(&u.x);                   \
		MC_CHECK(g == v, "del", "%ld instead of %ld", g, v);           \
	}                                                                      \
	static void qc_##x(void) { sc_queue_clear(&u.x); }                     \
	static size_t qs_##x(void) { return sc_queue_size(&u.x); }             \
	static void qt_##x(void) { sc_queue_term(&u.x); }
#define VQUE(x) "queue " #x, 2, 1, 1, qi_##x, qa_##x, qr_##x, qc_##x, qs_##x, qt_##x
QUE(qi, int)
QUE(qp, void *)

static void hi(void)
{
	MC_CHECK(sc_heap_init(&u.h, caps[cfg % 4]), "init", "init");
	unit = 2 * sizeof(*u.h.elems);
	extra = (caps[cfg % 4] + 8) * sizeof(*u.h.elems);
}
/* cfg 0-3: the oldest element comes first, 4-7: the newest */
static void ha(long v)
{
	MC_CHECK(sc_heap_add(&u.h, cfg < 4 ? v : -v, &skey[v]), "oom", "out of memory");
}
static void hr(long v, bool newest)
{
	struct sc_heap_data *d = sc_heap_pop(&u.h);
	(void) newest;
	MC_CHECK(d && d->data == &skey[v], "pop", "wrong element");
}
static void hc(void) { sc_heap_clear(&u.h); }
static size_t hs(void) { return sc_heap_size(&u.h); }
static void ht(void) { sc_heap_term(&u.h); }

/* timers: cfg 0: spread over the wheel, 1: all in one slot */
static uint64_t ids[MAXE], tnow;
static size_t tsize;
static long fired;
static void ti(void)
{
	tnow = 1000;
	sc_timer_init(&u.t, tnow);
	tsize = 0;
	unit = 2 * 16 * sizeof(*u.t.list);
	extra = 4 * unit;
}
static void ta(long v)
{
	ids[v] = sc_timer_add(&u.t, cfg ? 40 : (uint64_t) (v % 61) * 9, (uint64_t) v, &skey[v]);
	MC_CHECK(ids[v] != SC_TIMER_INVALID, "oom", "out of memory");
	tsize++;
}
static void tcb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	(void) arg;
	(void) timeout;
	MC_CHECK(data == &skey[type] && ids[type] != SC_TIMER_INVALID, "fire",
		 "wrong timer %ld", (long) type);
	ids[type] = SC_TIMER_INVALID;
	tsize--;
	fired++;
}
static void tr(long v, bool newest)
{
	(void) newest;
	sc_timer_cancel(&u.t, &ids[v]);
	MC_CHECK(ids[v] == SC_TIMER_INVALID, "cancel", "not cancelled");
	tsize--;
}
/* everything expires */
static void tc(void)
{
	long want = (long) tsize;
	fired = 0;
	tnow += 4000;
	sc_timer_timeout(&u.t, tnow, NULL, tcb);
	MC_CHECK(fired == want, "fire", "%ld of %ld timers fired", fired, want);
}
static size_t ts(void) { return tsize; }
static void tt(void) { sc_timer_term(&u.t); }

/* buffer: elements of 8 (cfg 1: 100) bytes, compacted when the reader has caught up half */
static size_t besz;
static void bi(void)
{
	MC_CHECK(sc_buf_init(&u.b, cfg & 1 ? 0 : 10), "init", "init");
	besz = cfg & 2 ? 100 : 8;
	unit = besz;
	extra = 8192 + 4 * besz;
}
static void ba(long v)
{
	char x[100];
	memset(x, 0, sizeof(x));
	memcpy(x, &v, sizeof(v));
	if (sc_buf_rpos(&u.b) >= sc_buf_wpos(&u.b) / 2)
		sc_buf_compact(&u.b);
	sc_buf_put_raw(&u.b, x, besz);
	MC_CHECK(sc_buf_valid(&u.b), "oom", "out of memory");
}
static void br(long v, bool newest)
{
	char x[100];
	long g;
	if (newest) {
		sc_buf_set_wpos(&u.b, sc_buf_wpos(&u.b) - besz);
		memcpy(&g, sc_buf_wbuf(&u.b), sizeof(g));
	} else {
		sc_buf_get_data(&u.b, x, besz);
		memcpy(&g, x, sizeof(g));
	}
	MC_CHECK(g == v, "get", "%ld instead of %ld", g, v);
}
static void bc(void) { sc_buf_clear(&u.b); }
static size_t bs(void) { return sc_buf_size(&u.b) / besz; }
static void bt(void) { sc_buf_term(&u.b); }

static const struct cont conts[] = {
	{VMAP(64)},  {VMAP(str)}, {VMAP(intv)}, {VARR(ai)}, {VARR(al)},
	{VQUE(qi)},  {VQUE(qp)},
	{"heap, oldest first", 4, 0, 1, hi, ha, hr, hc, hs, ht},
	{"heap, newest first", 8, 1, 0, hi, ha, hr, hc, hs, ht},
	{"timer", 2, 1, 1, ti, ta, tr, tc, ts, tt},
	{"buffer", 4, 1, 1, bi, ba, br, bc, bs, bt},
};
static const struct cont *c;

static long log2up(long n)
{
	long r = 0;
	while ((1L << r) < n)
		r++;
	return r;
}

static void measure(void)
{
	long n = next - first;
	size_t bytes = mc_live_bytes(), lim;

	mc_transitions++;
	if (n > maxn)
		maxn = n;
	MC_CHECK(c->size() == (size_t) n, "size", "%zu elements instead of %ld", c->size(), n);
	lim = 2 * (extra + 2 * unit * (size_t) (maxn + 1));
	MC_CHECK(bytes <= lim, "memory", "%zu bytes for at most %ld elements (limit %zu)", bytes, maxn, lim);
}

static void add(void)
{
	if (next >= MAXE || (c->add == ta && cfg && next - first > 160))
		mc_prune();
	c->add(next++);
	measure();
}
static void rem(bool newest)
{
	if (newest ? !c->lifo : !c->fifo)
		newest = !newest;
	if (next == first)
		return;
	if (newest)
		c->rem(--next, true);
	else
		c->rem(first++, false);
	measure();
}

/* the second range of sizes: beyond 2^16 elements */
static const int bign[] = {70000, 200, 35001};
static bool slow; /* removing the oldest copies everything */

#define NOPS 9
static const char *const opname[NOPS] = {"add", "remove oldest", "remove newest", "add 9", "add 150",
	"drain from the oldest", "drain from the newest", "60 x (add, remove oldest)", "60 x (add, remove newest)"};
static int depth;

static void run(void)
{
	long phases = 1;

	mc_heap_reset();
	mc_fill = 0xA5;
	first = next = maxn = 0;
	c->init();
	mc_evals++;
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(NOPS + 1), k = 1;
		long calls = mc_alloc_calls, lim;

		if (mc_replaying)
			mc_note("%s; ", op < NOPS ? opname[op] : "clear");
		switch (op) {
		case 0: add(); break;
		case 1:
		case 2: rem(op == 2); break;
		case 3:
		case 4:
			for (k = op == 3 ? 9 : 150; k; k--)
				add();
			break;
		case 5:
		case 6:
			while (next > first)
				rem(op == 6);
			break;
		case 7:
		case 8:
			for (k = 60; k; k--) {
				add();
				rem(op == 8);
			}
			break;
		default:
			c->clear();
			first = next;
			measure();
		}
		phases++;
		lim = 3 + 2 * log2up(maxn + 16) + (long) (2 * unit * (size_t) maxn / 4096);
		MC_CHECK(mc_alloc_calls - calls <= lim, "allocations", "%ld allocations (limit %ld) in '%s'",
			 mc_alloc_calls - calls, lim, op < NOPS ? opname[op] : "clear");
		mc_distinct_add(&(long[3]){(long) (c - conts) * 16 + cfg, next - first, maxn}, 24);
	}
	/* what is left is all there, in order */
	while (next > first)
		rem(false);
	c->term();
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
}

static void run_large(void)
{
	mc_heap_reset();
	first = next = maxn = 0;
	c->init();
	mc_evals++;
	for (int d = 0; d < depth; d++) {
		int op = mc_choose(7), k;

		if (mc_replaying)
			mc_note("%s %d; ", op < 3 ? "add" : op == 3 ? "clear" : "remove", op == 3 ? 0 : bign[op < 3 ? op : op - 4]);
		if (op < 3)
			for (k = bign[op]; k; k--)
				add();
		else if (op == 3) {
			c->clear();
			first = next;
			measure();
		} else
			for (k = bign[op - 4]; k && next > first; k--)
				rem(slow || op & 1);
		mc_distinct_add(&(long[3]){(long) (c - conts) * 16 + cfg, next - first, maxn}, 24);
		mc_tick();
	}
	while (next > first)
		rem(slow);
	c->term();
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
}

/* capacities asked for that are far beyond what is stored: nothing may grow */
static void huge(void)
{
	static const uint32_t hc[] = {1u << 24, (1u << 25) + 1, 1u << 26, 1u << 27, 1u << 28};
	static const uint32_t lf[] = {0, 25, 31, 32, 33, 43, 50, 51, 63, 64, 65, 86, 95};

	mc_big_limit = 1ul << 34;
	for (unsigned i = 0; i < 5; i++) {
		if (!mc_mine("capacity %u", hc[i]))
			continue;
		for (unsigned k = 0; k < 13 * 3; k++) {
			size_t b0;

			mc_heap_reset();
			mc_alloc_reset(0);
			mc_note_reset();
			mc_note("map type %u, capacity %u, load factor %u\n", k % 3, hc[i], lf[k / 3]);
			first = next = 0;
			c = &conts[k % 3];
#define HI(n) MC_CHECK(sc_map_init_##n(&u.m##n, hc[i], lf[k / 3]), "init", "init")
			if (k % 3 == 0)
				HI(64);
			else if (k % 3 == 1)
				HI(str);
			else
				HI(intv);
			b0 = mc_live_bytes();
			for (long v = 0; v < 200; v++)
				c->add(v);
			MC_CHECK(mc_live_bytes() == b0 && mc_alloc_calls == 1, "grown",
				 "%zu bytes and %ld allocations for 200 elements in a map of capacity %u", mc_live_bytes(),
				 mc_alloc_calls, hc[i]);
			for (long v = 0; v < 200; v++)
				c->rem(v, false);
			c->term();
			MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
			mc_evals++;
			mc_tick();
		}
		mc_heap_reset();
		mc_alloc_reset(0);
		MC_CHECK(sc_heap_init(&u.h, hc[i]), "init", "init");
		for (long v = 0; v < 200; v++)
			sc_heap_add(&u.h, -v, &skey[v]);
		MC_CHECK(mc_alloc_calls == 1, "grown", "a heap of capacity %u grew", hc[i]);
		for (long v = 199; v >= 0; v--)
			MC_CHECK(sc_heap_pop(&u.h)->data == &skey[v], "pop", "wrong element");
		sc_heap_term(&u.h);
		MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
		MC_CHECK(sc_buf_init(&u.b, hc[i]), "init", "init");
		for (uint32_t v = 0; v < 20000; v++)
			sc_buf_put_32(&u.b, v);
		MC_CHECK(mc_alloc_calls == 2, "grown", "a buffer of capacity %u grew", hc[i]);
		for (uint32_t v = 0; v < 20000; v++)
			MC_CHECK(sc_buf_get_32(&u.b) == v, "get", "wrong value");
		sc_buf_term(&u.b);
		MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	}
	/* and a map that grows to such a capacity */
	if (mc_mine("grows to capacity 2^26")) {
		const uint32_t n = (uint32_t) ((1u << 25) * 0.64) + 3000;

		mc_heap_reset();
		mc_alloc_reset(0);
		MC_CHECK(sc_map_init_32(&u.m32, 1u << 25, 64), "init", "init");
		for (uint32_t k = 1; k <= n; k++) {
			sc_map_put_32(&u.m32, k, ~k);
			if (!(k & 0xfffff))
				mc_tick();
		}
		MC_CHECK(mc_alloc_calls == 2, "grown", "%ld allocations for %u elements in a map of capacity 2^25, load factor 64",
			 mc_alloc_calls, n);
		MC_CHECK(sc_map_size_32(&u.m32) == n, "size", "size %u instead of %u", sc_map_size_32(&u.m32), n);
		for (uint32_t k = 1; k <= n; k++)
			MC_CHECK(sc_map_get_32(&u.m32, k) == ~k, "get", "wrong value of %u", k);
		sc_map_term_32(&u.m32);
		MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
		mc_evals++;
	}
	mc_note_reset();
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	for (int i = 0; i < MAXE; i++)
		snprintf(skey[i], sizeof(skey[i]), "k%d", i);
	for (c = conts; c < conts + sizeof(conts) / sizeof(*conts); c++)
		for (cfg = c->lifo && !c->fifo ? 4 : 0; cfg < c->ncfg; cfg++)
			if ((depth = mc_thorough ? 5 : 4))
				if (mc_mine("%s configuration %d", c->name, cfg))
					mc_dfs(run, 0, UINT64_MAX);
	mc_big_limit = 256 << 20;
	large = true;
	for (c = conts; c < conts + sizeof(conts) / sizeof(*conts); c++)
		for (cfg = c->lifo && !c->fifo ? 4 : 0; cfg < c->ncfg; cfg += 5)
			if (!(c->add == ta && cfg) && mc_mine("large %s configuration %d", c->name, cfg)) {
				depth = mc_thorough ? 3 : 2;
				slow = c->add == aa_ai || c->add == aa_al;
				mc_dfs(run_large, 0, UINT64_MAX);
			}
	huge();
	mc_sample("add 150; 60 x (add, remove oldest); drain from the newest; add 9");
	return mc_done();
}
