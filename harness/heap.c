/* C05: heap against a reference multiset, each allocation failing. */
#include "mc.h"
#include "sc_heap.h"

#include <string.h>

#define MAXN 20
static const int64_t keyv[] = {0, INT64_MIN, INT64_MAX, -1, 7};
static int nkeys, ndata, max_n;
static size_t init_cap;

static struct sc_heap obj;
static struct {
	int32_t n;
	struct {
		uint8_t k, d;
	} e[MAXN]; /* sorted, canonical */
} m;

#define DATA(d) ((void *) (uintptr_t) (0x1000 + (d)))

static void msort(void)
{
	for (int i = 1; i < m.n; i++)
		for (int j = i; j > 0; j--)
			if (m.e[j - 1].k * 16 + m.e[j - 1].d >
			    m.e[j].k * 16 + m.e[j].d) {
				__typeof__(m.e[0]) t = m.e[j];
				m.e[j] = m.e[j - 1];
				m.e[j - 1] = t;
			}
	for (int i = m.n; i < MAXN; i++)
		m.e[i].k = m.e[i].d = 0;
}

static int64_t minkey(void)
{
	int64_t k = keyv[m.e[0].k];
	for (int i = 1; i < m.n; i++)
		if (keyv[m.e[i].k] < k)
			k = keyv[m.e[i].k];
	return k;
}

static void sys_init(void)
{
	memset(&obj, 0x5c, sizeof(obj));
	memset(&m, 0, sizeof(m));
	MC_CHECK(sc_heap_init(&obj, init_cap), "init", "init failed");
}

static int take(const char *what, struct sc_heap_data *d)
{
	MC_CHECK(d != NULL, "null", "%s returned NULL with %d elements", what,
		 m.n);
	MC_CHECK(d->key == minkey(), "order",
		 "%s returned key %lld, the least key is %lld", what,
		 (long long) d->key, (long long) minkey());
	for (int i = 0; i < m.n; i++)
		if (keyv[m.e[i].k] == d->key && DATA(m.e[i].d) == d->data)
			return i;
	mc_fail("pair", "%s returned a (key, data) pair that was never added "
			"or was already removed", what);
	return 0;
}

static bool pop(void)
{
	struct sc_heap_data *d = sc_heap_pop(&obj);
	int i;

	if (!m.n) {
		MC_CHECK(d == NULL, "empty", "pop of an empty heap");
		return true;
	}
	i = take("pop", d);
	m.e[i] = m.e[--m.n];
	msort();
	return true;
}

/* a full heap that may not double its capacity */
static bool at_limit(void)
{
#ifdef SC_HEAP_MAX
	return obj.size + 1 >= obj.cap && obj.cap * 2 + 1 >= SC_HEAP_MAX;
#else
	return false;
#endif
}

static bool apply(int op)
{
	if (op < nkeys * ndata) {
		int k = op % nkeys, d = op / nkeys;
		if (m.n >= max_n)
			return false;
		if (!sc_heap_add(&obj, keyv[k], DATA(d))) {
			MC_CHECK(mc_alloc_failed > 0 || at_limit(), "oom-spurious",
				 "add failed although no allocation failed");
			return true;
		}
		m.e[m.n].k = (uint8_t) k;
		m.e[m.n++].d = (uint8_t) d;
		msort();
		return true;
	}
	op -= nkeys * ndata;
	switch (op) {
	case 0:
		return pop();
	case 1: {
		struct sc_heap_data *d = sc_heap_peek(&obj);
		if (!m.n)
			MC_CHECK(d == NULL, "empty", "peek of an empty heap");
		else
			take("peek", d);
		return true;
	}
	case 2:
		sc_heap_clear(&obj);
		memset(&m, 0, sizeof(m));
		return true;
	case 3:
		sc_heap_term(&obj);
		MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		MC_CHECK(!sc_heap_size(&obj) && !sc_heap_peek(&obj) && !sc_heap_pop(&obj), "term", "a terminated heap is not empty");
		memset(&m, 0, sizeof(m));
		if (!sc_heap_init(&obj, init_cap)) {
			MC_CHECK(mc_alloc_failed > 0, "init", "init failed");
			sc_heap_term(&obj);
			mc_alloc_reset(0);
			MC_CHECK(sc_heap_init(&obj, init_cap), "init",
				 "init failed");
		}
		return true;
	}
	return false;
}

static void check(void)
{
	MC_CHECK(sc_heap_size(&obj) == (size_t) m.n, "size",
		 "size is %zu, expected %d", sc_heap_size(&obj), m.n);
#ifdef SC_HEAP_MAX
	MC_CHECK(obj.cap <= SC_HEAP_MAX, "limit", "capacity %zu exceeds the limit", obj.cap);
#endif
	if (m.n)
		take("peek", sc_heap_peek(&obj));
	else
		MC_CHECK(!sc_heap_peek(&obj), "empty", "peek of empty heap");
	while (m.n)
		pop();
	pop();
	MC_CHECK(sc_heap_size(&obj) == 0, "size", "size after drain");
}

static void term(void)
{
	sc_heap_term(&obj);
	sc_heap_term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	static const char *s[] = {"pop", "peek", "clear", "term+init"};
	if (op < nkeys * ndata)
		snprintf(b, n, "add(%lld,d%d)", (long long) keyv[op % nkeys],
			 op / nkeys);
	else
		snprintf(b, n, "%s", s[op - nkeys * ndata]);
}

/* every add/pop word up to a length */
static int word_len, word_keys;
static void word(void)
{
	mc_heap_reset();
	mc_alloc_reset(0);
	memset(&m, 0, sizeof(m));
	sc_heap_init(&obj, init_cap);
	for (int i = 0; i < word_len; i++) {
		int c = mc_choose(word_keys + 1);
		if (c < word_keys) {
			if (!sc_heap_add(&obj, keyv[c], DATA(i))) {
				mc_fail("oom-spurious", "add failed");
			}
			m.e[m.n].k = (uint8_t) c;
			m.e[m.n++].d = (uint8_t) i;
		} else if (m.n) {
			pop();
		}
	}
	while (m.n)
		pop();
	sc_heap_term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}

#ifndef SC_HEAP_MAX
/* larger heaps: the orders i -> i * mul mod p, pops between the adds */
static uint8_t in[70001];
static void perm(int64_t p, int64_t mul, int every, int64_t scale, int64_t off)
{
	int64_t min = p;
	size_t n = 0;
	struct sc_heap_data *d;

	mc_heap_reset();
	mc_alloc_reset(0);
	memset(in, 0, sizeof(in));
	MC_CHECK(sc_heap_init(&obj, 0), "init", "init");
	mc_note_reset();
	mc_note("keys i * %lld mod %lld, a pop after every %d adds\n", (long long) mul, (long long) p, every);
	for (int64_t i = 0; i < p || n; i++) {
		if (i < p) {
			int64_t k = i * mul % p;
			mc_alloc_reset(1);
			if (!sc_heap_add(&obj, k * scale + off, &in[k])) {
				MC_CHECK(mc_alloc_failed > 0, "oom-spurious", "add failed");
				d = sc_heap_peek(&obj);
				MC_CHECK(sc_heap_size(&obj) == n && (n ? d && d->key == min * scale + off && d->data == &in[min] : !d),
					 "oom", "a failed add changed the heap");
				mc_alloc_reset(0);
				MC_CHECK(sc_heap_add(&obj, k * scale + off, &in[k]), "oom-spurious", "add failed again");
			}
			mc_alloc_reset(0);
			in[k] = 1;
			n++;
			if (k < min)
				min = k;
		}
		MC_CHECK(sc_heap_size(&obj) == n, "size", "size %zu instead of %zu", sc_heap_size(&obj), n);
		if (i >= p || i % every == 0) {
			d = sc_heap_peek(&obj);
			MC_CHECK(d && d->key == min * scale + off && d->data == &in[min], "peek", "peek at step %lld", (long long) i);
			d = sc_heap_pop(&obj);
			MC_CHECK(d && d->key == min * scale + off && d->data == &in[min], "pop", "pop at step %lld", (long long) i);
			in[min] = 0;
			n--;
			while (min < p && !in[min])
				min++;
		}
	}
	MC_CHECK(!sc_heap_pop(&obj), "empty", "pop of an empty heap");
	sc_heap_term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_evals++;
	mc_tick();
}
static void perms(void)
{
	static const int p[] = {13, 61, 127, 257, 1021};

	for (int i = 0; i < 5; i++)
		if (mc_mine("heap of %d keys in every linear order", p[i]))
			for (int m = 1; m < p[i]; m++)
				for (int e = 1; e < 6; e++) {
					perm(p[i], m, e == 5 ? 100000 : e, 1, 0);
					if (p[i] < 200 || mc_thorough)
						perm(p[i], m, e == 5 ? 100000 : e, INT64_MAX / 1021, -500 * (INT64_MAX / 1021));
				}
	for (int m = 2; m < 10; m++)
		if (mc_mine("heap of 70001 keys, order %d", m)) {
			mc_big_limit = 64 << 20;
			perm(70001, m == 9 ? 70000 : 70001 / m * 2 + m, m & 1 ? 3 : 100000, 1, 0);
			mc_big_limit = 0;
		}
	mc_note_reset();
}

/* more bytes than 32 bits can count */
__attribute__((no_sanitize("address"), optimize("O2"))) static void giant(void)
{
	const int64_t n = (1l << 28) + 5;
	struct sc_heap_data *d;

	if (!mc_mine("heap giant"))
		return;
	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1ul << 35;
	MC_CHECK(sc_heap_init(&obj, 0), "init", "init");
	for (int64_t i = 0; i < n; i++) {
		MC_CHECK(sc_heap_add(&obj, i < n - 5 ? i * 2 : (n - i) * 2 - 1, (void *) ~i), "oom-spurious",
			 "add reports out of memory at %lld elements", (long long) i);
		if (!(i & 0xffffff))
			mc_tick();
	}
	mc_evals++;
	MC_CHECK(sc_heap_size(&obj) == (size_t) n, "giant", "size %zu", sc_heap_size(&obj));
	/* the last five have keys 9, 7, .. 1 */
	for (int64_t i = 0; i < 1000; i++) {
		int64_t k = i < 10 ? i : 2 * (i - 5);
		d = sc_heap_pop(&obj);
		MC_CHECK(d && d->key == k && (int64_t) d->data == ~(k & 1 ? n - (k + 1) / 2 : k / 2), "giant",
			 "pop %lld yields key %lld", (long long) i, (long long) (d ? d->key : -1));
	}
	MC_CHECK(sc_heap_size(&obj) == (size_t) n - 1000, "giant", "size %zu", sc_heap_size(&obj));
	sc_heap_clear(&obj);
	MC_CHECK(!sc_heap_pop(&obj) && !sc_heap_peek(&obj), "giant", "not empty");
	sc_heap_term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	mc_big_limit = 0;
}
#endif

int main(int argc, char **argv)
{
	static const size_t caps[] = {0, 1, 2, 3, 4, 5, 8, 16};
	static const struct {
		int k, d, n;
	} cf[] = {{2, 1, 18}, {3, 2, 7}, {5, 1, 8}};
	static struct mc_sys s;

	mc_init(argc, argv);
	for (unsigned c = 0; c < sizeof(caps) / sizeof(caps[0]); c++)
		for (unsigned i = 0; i < sizeof(cf) / sizeof(cf[0]); i++) {
			if (!mc_mine("heap cap=%zu keys=%d data=%d max=%d",
				     caps[c], cf[i].k, cf[i].d, cf[i].n))
				continue;
			init_cap = caps[c];
#ifdef SC_HEAP_MAX
			if (init_cap > SC_HEAP_MAX) {
				mc_heap_reset();
				MC_CHECK(!sc_heap_init(&obj, init_cap), "limit",
					 "creation with capacity %zu", init_cap);
				sc_heap_term(&obj);
				MC_CHECK(!mc_live_blocks(), "leak", "leak");
				continue;
			}
#endif
			nkeys = cf[i].k;
			ndata = cf[i].d;
			max_n = cf[i].n;
			memset(&s, 0, sizeof(s));
			s.init = sys_init;
			s.apply = apply;
			s.check = check;
			s.term = term;
			s.opname = opname;
			s.nops = nkeys * ndata + 4;
			s.faults = true;
			s.max_depth = 100000;
			s.max_states = mc_thorough ? 2000000 : 60000;
#ifdef SC_HEAP_MAX
			s.max_states /= 6;
#endif

			mc_regions_clear();
			mc_region(&obj, sizeof(obj));
			mc_region(&m, sizeof(m));
			mc_bfs(&s);
		}
#ifdef SC_HEAP_MAX
	return mc_done();
#else
	giant();
	perms();
#endif
	for (int c = 0; c < 8; c++) {
		if (!mc_mine("heap words cap=%zu", caps[c]))
			continue;
		init_cap = caps[c];
		word_keys = 5;
		word_len = mc_thorough ? 9 : 7;
		mc_dfs(word, 0, UINT64_MAX);
		word_keys = 3;
		word_len = mc_thorough ? 12 : 9;
		mc_dfs(word, 0, UINT64_MAX);
	}
	return mc_done();
}
