/* C01/C02: every map variant against an exact finite map.
 * Build with -DFAULTS=0|1 (allocation failures), -DLIMIT=0|1 (small
 * SC_MAP_MAX). */
#include "mc.h"
#include "sc_map.h"

#include <stdlib.h>
#include <string.h>

#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef LIMIT
#define LIMIT 0
#endif

#define NK 8 /* keys, key 0 is zero/NULL */

#define MAXU (1 << 18)
static int nu = NK; /* keys there are */
static long long ikeys[MAXU];
static char *skeys[MAXU][2]; /* two copies of each string, [0] is NULL */
static bool probing;       /* keys absent from the universe */

#define IK(K) ((K) ikeys[k])
#define SK(K) ((K) skeys[k][alt])

static int ikey_idx(long long v, long long mask)
{
	for (int k = 0; k < nu; k++)
		if (((ikeys[k] ^ v) & mask) == 0)
			return k;
	return -1;
}

static int skey_idx(const char *s)
{
	if (!s)
		return 0;
	for (int k = 1; k < nu; k++)
		if (!strcmp(skeys[k][0], s))
			return k;
	return -1;
}

struct vt {
	const char *name;
	size_t sz;
	bool strk;
	bool (*init)(void *m, uint32_t cap, uint32_t lf);
	void (*term)(void *m);
	uint32_t (*size)(void *m);
	void (*clear)(void *m);
	uint64_t (*put)(void *m, int k, int alt, uint64_t v);
	uint64_t (*get)(void *m, int k, int alt);
	uint64_t (*del)(void *m, int k, int alt);
	bool (*found)(void *m);
	bool (*oom)(void *m);
	int (*each)(void *m, int stop, int *ks, uint64_t *vs, int max);
	int (*each_key)(void *m, int stop, int *ks, int max);
	int (*each_val)(void *m, int stop, uint64_t *vs, int max);
	uint32_t (*cap)(void *m);
	uint64_t vmask; /* bits of a value */
};

static int inner; /* visits of nested loops */

#define DEF(n, K, V, KEY, IDX)                                                 \
	static bool i_##n(void *m, uint32_t c, uint32_t l)                     \
	{                                                                      \
		return sc_map_init_##n(m, c, l);                               \
	}                                                                      \
	static void t_##n(void *m) { sc_map_term_##n(m); }                     \
	static uint32_t s_##n(void *m) { return sc_map_size_##n(m); }          \
	static void c_##n(void *m) { sc_map_clear_##n(m); }                    \
	static uint32_t cp_##n(void *m)                                        \
	{                                                                      \
		return (uint32_t) ((struct sc_map_##n *) m)->cap;              \
	}                                                                      \
	static uint64_t p_##n(void *m, int k, int alt, uint64_t v)             \
	{                                                                      \
		(void) alt;                                                    \
		return (uint64_t) (uintptr_t) sc_map_put_##n(                  \
			m, KEY(K), (V) (uintptr_t) v);                         \
	}                                                                      \
	static uint64_t g_##n(void *m, int k, int alt)                         \
	{                                                                      \
		(void) alt;                                                    \
		return (uint64_t) (uintptr_t) sc_map_get_##n(m, KEY(K));       \
	}                                                                      \
	static uint64_t d_##n(void *m, int k, int alt)                         \
	{                                                                      \
		(void) alt;                                                    \
		return (uint64_t) (uintptr_t) sc_map_del_##n(m, KEY(K));       \
	}                                                                      \
	static bool f_##n(void *m)                                             \
	{                                                                      \
		return sc_map_found((struct sc_map_##n *) m);                  \
	}                                                                      \
	static bool o_##n(void *m)                                             \
	{                                                                      \
		return sc_map_oom((struct sc_map_##n *) m);                    \
	}                                                                      \
	static int e_##n(void *vm, int stop, int *ks, uint64_t *vs, int max)   \
	{                                                                      \
		struct sc_map_##n *m = vm;                                     \
		K key;                                                         \
		V val;                                                         \
		int c = 0;                                                     \
		sc_map_foreach (m, key, val) {                                 \
			if (c < max) {                                         \
				ks[c] = IDX(key, K);                           \
				vs[c] = (uint64_t) (uintptr_t) val;            \
			}                                                      \
			c++;                                                   \
			if (stop == -2) {                                      \
				K k2;                                          \
				V v2;                                          \
				sc_map_foreach (m, k2, v2)                     \
					break;                                 \
				sc_map_foreach (m, k2, v2)                     \
					inner++;                               \
			}                                                      \
			if (stop < 0)                                          \
				continue;                                      \
			if (c == stop)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}                                                                      \
	static int ek_##n(void *vm, int stop, int *ks, int max)                \
	{                                                                      \
		struct sc_map_##n *m = vm;                                     \
		K key;                                                         \
		int c = 0;                                                     \
		sc_map_foreach_key (m, key) {                                  \
			if (c < max)                                           \
				ks[c] = IDX(key, K);                           \
			c++;                                                   \
			if (stop == -2) {                                      \
				K k2;                                          \
				sc_map_foreach_key (m, k2)                     \
					break;                                 \
				sc_map_foreach_key (m, k2)                     \
					inner++;                               \
			}                                                      \
			if (stop < 0)                                          \
				continue;                                      \
			if (c == stop)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}                                                                      \
	static int ev_##n(void *vm, int stop, uint64_t *vs, int max)           \
	{                                                                      \
		struct sc_map_##n *m = vm;                                     \
		V val;                                                         \
		int c = 0;                                                     \
		sc_map_foreach_value (m, val) {                                \
			if (c < max)                                           \
				vs[c] = (uint64_t) (uintptr_t) val;            \
			c++;                                                   \
			if (stop == -2) {                                      \
				V v2;                                          \
				sc_map_foreach_value (m, v2)                   \
					break;                                 \
				sc_map_foreach_value (m, v2)                   \
					inner++;                               \
			}                                                      \
			if (stop < 0)                                          \
				continue;                                      \
			if (c == stop)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}

#define IIDX(key, K) ikey_idx((long long) (key), sizeof(K) == 4 ? 0xffffffffll : -1ll)
#define SIDX(key, K) skey_idx(key)

#define VT(n, str)                                                             \
	{                                                                      \
		#n, sizeof(struct sc_map_##n), str, i_##n, t_##n, s_##n,       \
			c_##n, p_##n, g_##n, d_##n, f_##n, o_##n, e_##n,       \
			ek_##n, ev_##n, cp_##n,                                \
			sizeof(((struct sc_map_##n *) 0)->mem[0].value) == 4 ? \
				0xffffffffu :                                  \
				UINT64_MAX                                     \
	}

#define PV(V) V
DEF(int, int, int, IK, IIDX)
DEF(intv, int, void *, IK, IIDX)
DEF(ints, int, const char *, IK, IIDX)
DEF(ll, long long, long long, IK, IIDX)
DEF(llv, long long, void *, IK, IIDX)
DEF(lls, long long, const char *, IK, IIDX)
DEF(32, uint32_t, uint32_t, IK, IIDX)
DEF(64, uint64_t, uint64_t, IK, IIDX)
DEF(64v, uint64_t, void *, IK, IIDX)
DEF(64s, uint64_t, const char *, IK, IIDX)
DEF(str, const char *, const char *, SK, SIDX)
DEF(sv, const char *, void *, SK, SIDX)
DEF(s64, const char *, uint64_t, SK, SIDX)
DEF(sll, const char *, long long, SK, SIDX)

static const struct vt vts[] = {
	VT(int, 0), VT(intv, 0), VT(ints, 0), VT(ll, 0),  VT(llv, 0),
	VT(lls, 0), VT(32, 0),	 VT(64, 0),   VT(64v, 0), VT(64s, 0),
	VT(str, 1), VT(sv, 1),	 VT(s64, 1),  VT(sll, 1),
};
#define NVT ((int) (sizeof(vts) / sizeof(vts[0])))

static const struct vt *vt;
static union {
	struct sc_map_64 a;
	struct sc_map_str b;
	struct sc_map_int c;
	uint8_t raw[128];
} obj;
static struct {
	uint8_t in[NK];
	uint64_t v[NK];
	uint32_t n;
	uint8_t live;
} mod;
static uint32_t p_cap, p_lf;
static int nk; /* keys used by this configuration */
static int nv; /* values per key used */

static const uint64_t vals[3] = {0x9234567811111101u, 0, 0x00007fff80000002u};

static void sys_init(void)
{
	memset(&obj, 0x5c, sizeof(obj));
	memset(&mod, 0, sizeof(mod));
	MC_CHECK(vt->init(&obj, p_cap, p_lf), "init", "init failed");
	mod.live = 1;
}

/* ops: [0, nk*nv) put; then nk get; nk del; clear; re-create */
static bool apply(int op)
{
	bool oom;
	uint64_t r;
	int k;

	if (op < nk * nv) {
		uint64_t v = vals[op / nk] & vt->vmask;
		k = op % nk;
		r = vt->put(&obj, k, op / nk & 1, v) & vt->vmask;
		oom = vt->oom(&obj);
		if (oom) {
			MC_CHECK(mc_alloc_failed > 0 || LIMIT, "oom-spurious",
				 "put(key %d) reports out of memory though no "
				 "allocation failed", k);
			MC_CHECK(!vt->found(&obj), "found-after-oom",
				 "put(key %d) failed with out of memory but "
				 "the found flag says a value was overridden",
				 k);
			return true;
		}
		MC_CHECK(vt->found(&obj) == mod.in[k], "put-found",
			 "put(key %d): found=%d, expected %d", k,
			 vt->found(&obj), mod.in[k]);
		if (mod.in[k])
			MC_CHECK(r == mod.v[k], "put-ret",
				 "put(key %d) returned %llx instead of the "
				 "previous value %llx", k,
				 (unsigned long long) r,
				 (unsigned long long) mod.v[k]);
		else
			MC_CHECK(r == 0, "put-ret0",
				 "put(key %d) of a new key returned %llx", k,
				 (unsigned long long) r);
		mod.n += !mod.in[k];
		mod.in[k] = 1;
		mod.v[k] = v;
		return true;
	}
	op -= nk * nv;
	if (op < nk) {
		k = op;
		r = vt->get(&obj, k, 1) & vt->vmask;
		MC_CHECK(vt->found(&obj) == mod.in[k], "get-found",
			 "get(key %d): found=%d, expected %d", k,
			 vt->found(&obj), mod.in[k]);
		MC_CHECK(r == (mod.in[k] ? mod.v[k] : 0), "get-val",
			 "get(key %d) = %llx", k, (unsigned long long) r);
		return true;
	}
	op -= nk;
	if (op < nk) {
		k = op;
		r = vt->del(&obj, k, 1) & vt->vmask;
		MC_CHECK(vt->found(&obj) == mod.in[k], "del-found",
			 "del(key %d): found=%d, expected %d", k,
			 vt->found(&obj), mod.in[k]);
		MC_CHECK(r == (mod.in[k] ? mod.v[k] : 0), "del-val",
			 "del(key %d) = %llx", k, (unsigned long long) r);
		mod.n -= mod.in[k];
		mod.in[k] = 0;
		mod.v[k] = 0;
		return true;
	}
	op -= nk;
	if (op == 0) {
		vt->clear(&obj);
		memset(&mod, 0, sizeof(mod));
		mod.live = 1;
		return true;
	}
	vt->term(&obj);
	MC_CHECK(mc_live_blocks() == 0, "leak", "leak after term");
	memset(&mod, 0, sizeof(mod));
	memset(&obj, 0x5c, sizeof(obj));
	if (!vt->init(&obj, p_cap, p_lf)) {
		MC_CHECK(mc_alloc_failed > 0, "init", "init failed");
		MC_CHECK(vt->init(&obj, p_cap, p_lf), "init",
			 "init failed again");
	}
	mod.live = 1;
	return true;
}

static uint32_t obj_cap(void)
{
	return vt->cap(&obj);
}

static void check(void)
{
	int ks[NK + 4], c, seen = 0;
	uint64_t vs[NK + 4], vsum = 0, msum = 0;

	MC_CHECK(vt->size(&obj) == mod.n, "size", "size=%u, expected %u",
		 vt->size(&obj), mod.n);

	c = vt->each(&obj, 0, ks, vs, NK + 4);
	MC_CHECK(c == (int) mod.n, "foreach-count",
		 "foreach visited %d pairs of %u", c, mod.n);
	for (int i = 0; i < c && i < NK + 4; i++) {
		MC_CHECK(ks[i] >= 0 && mod.in[ks[i]], "foreach-key",
			 "foreach visited absent key (index %d)", ks[i]);
		MC_CHECK(!(seen & 1 << ks[i]), "foreach-dup",
			 "foreach visited key %d twice", ks[i]);
		MC_CHECK((vs[i] & vt->vmask) == mod.v[ks[i]], "foreach-val",
			 "foreach: key %d has value %llx", ks[i],
			 (unsigned long long) vs[i]);
		seen |= 1 << ks[i];
		msum += mod.v[ks[i]];
	}
	c = vt->each_key(&obj, 0, ks, NK + 4);
	MC_CHECK(c == (int) mod.n, "foreach_key-count",
		 "foreach_key visited %d keys of %u", c, mod.n);
	seen = 0;
	for (int i = 0; i < c && i < NK + 4; i++) {
		MC_CHECK(ks[i] >= 0 && mod.in[ks[i]] && !(seen & 1 << ks[i]),
			 "foreach_key", "foreach_key visited a wrong key");
		seen |= 1 << ks[i];
	}
	c = vt->each_val(&obj, 0, vs, NK + 4);
	MC_CHECK(c == (int) mod.n, "foreach_value-count",
		 "foreach_value visited %d values of %u", c, mod.n);
	for (int i = 0; i < c && i < NK + 4; i++)
		vsum += vs[i] & vt->vmask;
	MC_CHECK(vsum == msum, "foreach_value", "foreach_value: wrong values");
	for (int s = 1; s <= (int) mod.n; s++) {
		c = vt->each(&obj, s, ks, vs, NK + 4);
		MC_CHECK(c == s, "foreach-break",
			 "foreach went on after break (%d of %d)", c, s);
		c = vt->each_key(&obj, s, ks, NK + 4);
		MC_CHECK(c == s, "foreach-break",
			 "foreach_key went on after break (%d of %d)", c, s);
		c = vt->each_val(&obj, s, vs, NK + 4);
		MC_CHECK(c == s, "foreach-break",
			 "foreach_value went on after break (%d of %d)", c, s);
	}
	for (int s = -1; s >= -2 && obj_cap() < 100; s--) {
		inner = 0;
		c = vt->each(&obj, s, ks, vs, NK + 4);
		MC_CHECK(c == (int) mod.n, "foreach-continue",
			 "foreach with %s visited %d pairs of %u",
			 s == -1 ? "continue" : "a loop inside", c, mod.n);
		c = vt->each_key(&obj, s, ks, NK + 4);
		MC_CHECK(c == (int) mod.n, "foreach-continue",
			 "foreach_key with %s visited %d pairs of %u",
			 s == -1 ? "continue" : "a loop inside", c, mod.n);
		c = vt->each_val(&obj, s, vs, NK + 4);
		MC_CHECK(c == (int) mod.n, "foreach-continue",
			 "foreach_value with %s visited %d pairs of %u",
			 s == -1 ? "continue" : "a loop inside", c, mod.n);
		MC_CHECK(inner == (s == -1 ? 0 : 3 * (int) (mod.n * mod.n)),
			 "foreach-inner", "nested loops made %d visits", inner);
	}
	for (int k = 0; k < NK; k++) {
		uint64_t r = vt->get(&obj, k, 0) & vt->vmask;
		MC_CHECK(vt->found(&obj) == mod.in[k], "obs-found",
			 "get(key %d): found=%d, expected %d", k,
			 vt->found(&obj), mod.in[k]);
		MC_CHECK(r == (mod.in[k] ? mod.v[k] : 0), "obs-val",
			 "get(key %d) = %llx, expected %llx", k,
			 (unsigned long long) r,
			 (unsigned long long) (mod.in[k] ? mod.v[k] : 0));
	}
}

static void term(void)
{
	vt->term(&obj);
	/* a destroyed map may be destroyed again and initialized again */
	vt->term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	const char *what;
	int k;

	if (op < nk * nv) {
		k = op % nk;
		snprintf(b, n, "put(k%d,v%d)", k, op / nk);
		return;
	}
	op -= nk * nv;
	what = op < nk ? "get" : op < 2 * nk ? "del" : NULL;
	if (what)
		snprintf(b, n, "%s(k%d)", what, op % nk);
	else
		snprintf(b, n, op == 2 * nk ? "clear" : "term+init");
}

/* ---- key sets ---------------------------------------------------------- */
static uint32_t mm(const char *key) /* only used to choose colliding keys */
{
	const uint64_t m = 0xc6a4a7935bd1e995ull;
	size_t len = strlen(key);
	const unsigned char *p = (const unsigned char *) key;
	const unsigned char *end = p + (len & ~(uint64_t) 7);
	uint64_t h = len * m, k;

	for (; p != end; p += 8) {
		memcpy(&k, p, 8);
		k *= m;
		k ^= k >> 47;
		k *= m;
		h ^= k;
		h *= m;
	}
	if (len & 7) {
		for (int i = (int) (len & 7) - 1; i >= 0; i--)
			h ^= (uint64_t) p[i] << (8 * i);
		h *= m;
	}
	h ^= h >> 47;
	h *= m;
	h ^= h >> 47;
	return (uint32_t) h;
}

static void set_s(int k, const char *s)
{
	for (int c = 0; c < 2; c++) {
		free(skeys[k][c]);
		skeys[k][c] = strdup(s); /* exact size, ASan heap */
	}
}

struct hs {
	uint32_t h;
	uint32_t i;
};
static int hs_cmp(const void *a, const void *b)
{
	uint32_t x = ((const struct hs *) a)->h, y = ((const struct hs *) b)->h;
	return x < y ? -1 : x > y;
}

static void keys(int set)
{
	static const long long wrap[NK] = {0, 7, 15, 23, 31, 6, 8, 39};
	static const long long mixed[NK] = {
		0, 1, -1, 0x7fffffff, (long long) 0x8000000000000001ull, 9,
		-8, 0x100000003ll};
	static const long long mixed32[NK] = {0, 1, -1, 0x7fffffff,
					      (long long) 0xffffffff80000000ull,
					      9, -8, 3};
	static const char pads[] = "aBcDeFgHiJkLmNoPqRsT";
	char b[1200];
	int got;

	if (!vt->strk) {
		const long long *src = set == 0	? wrap :
				       strstr(vt->name, "ll") ||
						       strstr(vt->name, "64") ?
						  mixed :
						  mixed32;
		memcpy(ikeys, src, NK * sizeof(*ikeys));
		return;
	}
	if (set == 2) {
		/* long keys that differ late, two of them with equal hashes,
		 * and bytes above 127 */
		static struct hs *t;
		static unsigned n = 300000;
		static uint32_t pa, pb;
		memset(b, 'x', sizeof(b));
		if (!t) {
			t = malloc(n * sizeof(*t));
			for (unsigned i = 0; i < n; i++) {
				snprintf(b + 600, sizeof(b) - 600, "%u", i);
				t[i].h = mm(b);
				t[i].i = i;
			}
			qsort(t, n, sizeof(*t), hs_cmp);
			for (unsigned i = 1; i < n; i++)
				if (t[i].h == t[i - 1].h) {
					pa = t[i].i;
					pb = t[i - 1].i;
					break;
				}
		}
		snprintf(b + 600, sizeof(b) - 600, "%u", pa);
		set_s(1, b);
		snprintf(b + 600, sizeof(b) - 600, "%u", pb);
		set_s(2, b);
		b[600] = 0;
		set_s(3, b);
		b[256] = 0;
		set_s(4, b);
		set_s(5, "\x80\xff\x81");
		set_s(6, "\x80\xff\x01");
		memset(b, 'x', sizeof(b));
		b[sizeof(b) - 1] = 0;
		set_s(7, b);
	} else if (set == 0) {
		/* home slots 7,7,7,7,6,0,7 modulo 8, lengths 1..20 */
		static const unsigned want[NK] = {0, 7, 15, 7, 15, 6, 8, 7};
		got = 1;
		for (unsigned i = 0; got < NK; i++) {
			int len = (int) (i % 20) + 1;
			snprintf(b, sizeof(b), "%u%.*s", i, len, pads);
			if ((mm(b) & 15) == want[got])
				set_s(got++, b);
		}
	} else {
		/* a pair with equal 32 bit hashes, "", prefixes */
		static struct hs *t;
		static unsigned n = 300000;
		static uint32_t pa, pb;
		if (!t) {
			t = malloc(n * sizeof(*t));
			for (unsigned i = 0; i < n; i++) {
				snprintf(b, sizeof(b), "k%u", i);
				t[i].h = mm(b);
				t[i].i = i;
			}
			qsort(t, n, sizeof(*t), hs_cmp);
			for (unsigned i = 1; i < n; i++)
				if (t[i].h == t[i - 1].h) {
					pa = t[i].i;
					pb = t[i - 1].i;
					break;
				}
		}
		set_s(1, "");
		snprintf(b, sizeof(b), "k%u", pa);
		set_s(2, b);
		snprintf(b, sizeof(b), "k%u", pb);
		set_s(3, b);
		set_s(4, "k");
		set_s(5, "abcdefgh");
		set_s(6, "abcdefghi");
		set_s(7, "abcdefghabcdefgh");
	}
}

static void run(const struct vt *v, int set, uint32_t cap, uint32_t lf,
		int keys_used, int values, uint64_t max_states)
{
	static struct mc_sys s;

	if (!mc_mine("map %s keyset=%d cap=%u load=%u keys=%d values=%d",
		     v->name, set, cap, lf, keys_used, values))
		return;
	vt = v;
	keys(set);
	p_cap = cap;
	p_lf = lf;
	nk = keys_used;
	nv = values;
	memset(&s, 0, sizeof(s));
	s.init = sys_init;
	s.apply = apply;
	s.check = check;
	s.term = term;
	s.opname = opname;
	s.nops = nk * nv + 2 * nk + 2;
	s.faults = FAULTS;
	s.max_depth = 1000;
	s.max_states = max_states;
	mc_regions_clear();
	mc_region(&obj, sizeof(obj));
	mc_region(&mod, sizeof(mod));
	mc_bfs(&s);
}

/* initial capacities over the whole range, and load factor validation */
static void limits(const struct vt *v)
{
	static const uint64_t caps[] = {
		0,	   1,	       7,	   8,	       9,
		16,	   17,	       31,	   1000,       1025,
		4097,	   0x10000,    0x10001,	   0x12345,    0x20001,
		0x3fffffff,
		0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000,
		0xfffffffe, 0xffffffff};

	if (!mc_mine("map %s init limits", v->name))
		return;
	vt = v;
	keys(0);
	nk = NK;
	mc_allow_huge = true;
	mc_big_limit = 16 << 20;
	for (unsigned i = 0; i < sizeof(caps) / sizeof(caps[0]); i++) {
		for (uint32_t lf = 0; lf < 130; lf++) {
			if (caps[i] > 1000 && caps[i] < 0x30000000 && lf % 25 && lf != 95)
				continue;
			bool bad = lf != 0 && (lf < 25 || lf > 95);
			mc_heap_reset();
			memset(&obj, 0x5c, sizeof(obj));
			memset(&mod, 0, sizeof(mod));
			mc_evals++;
			mc_tick();
			bool ok = v->init(&obj, (uint32_t) caps[i], lf);
			mc_note_reset();
			mc_note("init(cap=%llu, load=%u) = %d\n",
				(unsigned long long) caps[i], lf, ok);
			if (bad)
				MC_CHECK(!ok, "init-load",
					 "load factor %u was accepted", lf);
			else
				MC_CHECK(ok || mc_alloc_failed || LIMIT ||
						 caps[i] > 0x7fffffff,
					 "init-spurious",
					 "init(cap=%llu, load=%u) failed "
					 "though memory was available",
					 (unsigned long long) caps[i], lf);
			if (!ok) {
				MC_CHECK(!mc_live_blocks(), "leak",
					 "failed init leaks");
				continue;
			}
			/* the map has to work, whatever was granted */
			nv = 3;
			mc_alloc_reset(0);
			check();
			apply(nk * nv + nk + 1); /* del of an absent key */
			for (int k = 0; k < NK; k++)
				apply(k);
			check();
			for (int k = 0; k < NK; k += 2)
				apply(nk * nv + nk + k);
			check();
			v->term(&obj);
			MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		}
	}
	mc_allow_huge = false;
	mc_big_limit = 0;
	mc_note_reset();
}

/* larger maps: keys in linear orders, deletions between the puts */
#if !FAULTS && !LIMIT
static void perm(int p, int mul, int every, uint32_t lf)
{
	static uint64_t v[MAXU];
	static int ks[MAXU + 4];
	static uint64_t vs[MAXU + 4];
	int n = 0, c;
	uint64_t r;

	mc_heap_reset();
	mc_alloc_reset(0);
	memset(v, 0, sizeof(v));
	mc_note_reset();
	mc_note("put key i * %d %% %d, delete key i * %d after every %d, load factor %u\n", mul, p, mul + 2, every, lf);
	MC_CHECK(vt->init(&obj, 0, lf), "init", "init failed");
	for (int i = 0; i < 3 * p; i++) {
		int k = (int) ((long) i * mul % p);
		uint64_t x = (0x9234567800000001u + (uint64_t) i * 0x10001) & vt->vmask;
		bool put = i < 2 * p;

		if (put) {
			r = vt->put(&obj, k, i & 1, x) & vt->vmask;
			MC_CHECK(!vt->oom(&obj) && vt->found(&obj) == (v[k] != 0) && r == v[k], "put", "put at step %d", i);
			n += !v[k];
			v[k] = x;
		}
		if (!put || i % every == every - 1) {
			k = (int) ((long) i * (mul + 2) % p);
			r = vt->del(&obj, k, ~i & 1) & vt->vmask;
			MC_CHECK(vt->found(&obj) == (v[k] != 0) && r == v[k], "del", "del at step %d", i);
			n -= v[k] != 0;
			v[k] = 0;
		}
		MC_CHECK(vt->size(&obj) == (uint32_t) n, "size", "size %u instead of %d", vt->size(&obj), n);
		if (i % 41 == 40 || i == 2 * p - 1)
			for (k = 0; k < p; k++) {
				r = vt->get(&obj, k, 0) & vt->vmask;
				MC_CHECK(vt->found(&obj) == (v[k] != 0) && r == v[k], "get", "key %d after step %d", k, i);
			}
		if (i == 2 * p - 1 && p < 100) {
			c = vt->each(&obj, 0, ks, vs, 1024);
			MC_CHECK(c == n, "foreach-count", "foreach visited %d of %d", c, n);
			for (int j = 0; j < c; j++) {
				MC_CHECK(ks[j] >= 0 && v[ks[j]] && (vs[j] & vt->vmask) == v[ks[j]], "foreach", "wrong pair");
				v[ks[j]] = 0;
			}
			vt->clear(&obj);
			n = 0;
		}
	}
	vt->term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
	mc_evals++;
	mc_tick();
}

static void perms(void)
{
	static const uint32_t lfs[] = {0, 25, 95};
	static char names[1024][2][16];

	for (int i = 0; i < NVT; i++)
		for (int pat = 0; pat < (vts[i].strk ? 2 : 6); pat++) {
			if (!mc_mine("map %s, linear orders of keys %d", vts[i].name, pat))
				continue;
			vt = &vts[i];
			nu = 1024;
			for (int k = 1; k < nu; k++) {
				long long q = k;
				ikeys[k] = pat == 0 ? q : pat == 1 ? q << 4 : pat == 2 ? -q : pat == 3 ? q << 20 :
					   pat == 4 ? (long long) ((unsigned long long) q * 0x9e3779b97f4a7c15u) :
						      q << 32 | q * 2654435761u % 1024;
				if (pat == 5 && strcmp(vt->name, "int") && strcmp(vt->name, "intv") && strcmp(vt->name, "ints") &&
				    strcmp(vt->name, "32"))
					ikeys[k] = q << 32 | q; /* all hashes are equal */
				else if (pat == 5)
					ikeys[k] = q << 22;
				for (int a = 0; a < 2; a++) {
					snprintf(names[k][a], 16, pat ? "%.*d" : "%2$d", pat ? 1 + k % 9 : 0, k);
					skeys[k][a] = names[k][a];
				}
			}
			ikeys[0] = 0;
			skeys[0][0] = skeys[0][1] = NULL;
			for (int l = 0; l < 3; l++)
				for (int m = 1; m < 14; m += 3)
					for (int e = 1; e < 5; e++) {
						perm(61, m, e, lfs[l]);
						if (pat != 5 && (e == 4 || mc_thorough))
							perm(1021, m * 7, e, lfs[l]);
					}
		}
	nu = NK;
	memset(skeys, 0, sizeof(skeys));
	mc_note_reset();
}
#endif

/* many keys: every growth fails once (with FAULTS), then everything is looked
 * up, a part is deleted, everything cleared and put again */
#if !LIMIT
static void all(const uint64_t *v, int n, const char *what)
{
	uint64_t r;
	uint32_t c = 0;

	for (int k = 0; k < n; k++) {
		r = vt->get(&obj, k, k & 1) & vt->vmask;
		MC_CHECK(vt->found(&obj) == (v[k] != 0) && r == v[k], "get", "key %d of %d after %s", k, n, what);
		c += v[k] != 0;
	}
	MC_CHECK(vt->size(&obj) == c, "size", "size %u instead of %u after %s", vt->size(&obj), c, what);
	mc_tick();
}

static void many(int n, uint32_t cap, uint32_t lf)
{
	static uint64_t v[MAXU], vs[MAXU];
	static int ks[MAXU];
	uint64_t r, x;
	int c, live;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1ul << 28;
	memset(v, 0, sizeof(v));
	mc_note_reset();
	mc_note("%d keys, capacity %u, load factor %u\n", n, cap, lf);
	MC_CHECK(vt->init(&obj, cap, lf), "init", "init failed");
	for (int round = 0; round < 2; round++) {
		for (int k = 0; k < n; k++) {
			x = ((0x9234567800000001u + (uint64_t) (k + round) * 0x10002) | 1) & vt->vmask;
			mc_alloc_reset(FAULTS ? 1 : 0);
			r = vt->put(&obj, k, k & 1, x) & vt->vmask;
			if (vt->oom(&obj)) {
				MC_CHECK(mc_alloc_failed > 0, "oom-spurious", "put of key %d reports out of memory", k);
				MC_CHECK(!vt->found(&obj) && r == 0, "oom-found", "a failed put of key %d found something", k);
				mc_alloc_reset(0);
				all(v, n, "a failed put");
				r = vt->put(&obj, k, k & 1, x) & vt->vmask;
				MC_CHECK(!vt->oom(&obj), "oom-spurious", "put of key %d reports out of memory again", k);
			} else {
				MC_CHECK(!mc_alloc_failed, "oom-missed", "put of key %d succeeds without memory", k);
			}
			MC_CHECK(!vt->found(&obj) && r == 0, "put", "put of key %d found %llu", k, (unsigned long long) r);
			v[k] = x;
		}
		mc_alloc_reset(0);
		all(v, n, "the puts");
		live = n;
		for (int k = round; k < n; k += 3) {
			r = vt->del(&obj, k, ~k & 1) & vt->vmask;
			MC_CHECK(vt->found(&obj) && r == v[k], "del", "del of key %d", k);
			v[k] = 0;
			live--;
		}
		all(v, n, "the deletes");
		c = 0;
		if (!vt->strk && n <= 2000) {
			c = vt->each(&obj, 0, ks, vs, MAXU);
			MC_CHECK(c == live, "foreach-count", "foreach visited %d of %d", c, live);
			for (int j = 0; j < c; j++)
				MC_CHECK(ks[j] >= 0 && v[ks[j]] && (vs[j] & vt->vmask) == v[ks[j]], "foreach", "wrong pair");
		}
		vt->clear(&obj);
		memset(v, 0, sizeof(v));
		MC_CHECK(vt->each_val(&obj, 0, vs, 1) == 0, "foreach-count", "foreach visits something after clear");
		all(v, n, "clear");
	}
	vt->term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
	mc_big_limit = 0;
	mc_evals++;
}

static void manys(void)
{
	static const int ns[] = {100, 1000, 70001, 200001};
	static char (*names)[16];

	for (int i = 0; i < NVT; i++)
		for (unsigned j = 0; j < sizeof(ns) / sizeof(ns[0]); j++) {
			bool rep = !strcmp(vts[i].name, "64") || !strcmp(vts[i].name, "str") || !strcmp(vts[i].name, "int");

			if (ns[j] > 100000 && !rep && !mc_thorough)
				continue;
			if (!mc_mine("map %s, %d keys", vts[i].name, ns[j]))
				continue;
			vt = &vts[i];
			nu = ns[j];
			if (!names)
				names = malloc(MAXU * sizeof(*names));
			for (int k = 0; k < nu; k++) {
				ikeys[k] = (long long) k * 2654435761u;
				snprintf(names[k], 16, "%x", k * 7);
				skeys[k][0] = skeys[k][1] = k ? names[k] : NULL;
			}
			if (strcmp(vt->name, "64") && strcmp(vt->name, "ll"))
				for (int k = 0; k < nu; k++)
					ikeys[k] = (int) (k * 2654435761u);
			many(nu, 0, 0);
			if (nu > 1000 && !mc_thorough)
				continue;
			many(nu, 0, 25);
			many(nu, 33, 95);
		}
	nu = NK;
	memset(skeys, 0, sizeof(skeys));
	mc_note_reset();
}
#endif

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	(void) probing;
#if !FAULTS && !LIMIT
	perms();
#endif
#if !LIMIT
	manys();
#endif
	bool t = mc_thorough;
	uint64_t cap_small = t ? 2000000 : FAULTS || LIMIT ? 30000 : 60000;

	for (int i = 0; i < NVT; i++) {
		bool rep = !strcmp(vts[i].name, "64s") ||
			   !strcmp(vts[i].name, "str");
		limits(&vts[i]);
		run(&vts[i], 0, 0, 0, t ? 8 : rep ? 8 : 5, rep && t ? 2 : 1,
		    cap_small);
		run(&vts[i], 1, 0, 25, t ? 8 : rep ? 8 : 5, rep && t ? 2 : 1,
		    cap_small);
		run(&vts[i], 0, 8, 95, t ? 8 : rep ? 8 : 5, rep && t ? 2 : 1,
		    cap_small);
		run(&vts[i], 1, 9, 50, 4, 3, cap_small);
		run(&vts[i], 0, 1, 25, t ? 6 : 5, 2, cap_small);
		if (vts[i].strk)
			run(&vts[i], 2, 0, 0, t ? 8 : rep ? 6 : 5, 1, cap_small);
	}
	return mc_done();
}
