/* C04: every array type against a reference sequence. */
#include "mc.h"

#include <stdlib.h>
#include <string.h>
static size_t array_max = SIZE_MAX;
#define SC_ARRAY_MAX array_max
#include "sc_array.h"

#define MAXN 40

struct vt {
	const char *name;
	void (*init)(void *a);
	void (*term)(void *a);
	size_t (*size)(void *a);
	void (*clear)(void *a);
	bool (*add)(void *a, long v);
	long (*at)(void *a, size_t i);
	void (*set)(void *a, size_t i, long v);
	void (*del)(void *a, size_t i);
	void (*delu)(void *a, size_t i);
	void (*dell)(void *a);
	long (*last)(void *a);
	void (*sort)(void *a, int desc);
	int (*each)(void *a, long *out, int max, int stop);
	size_t (*cap)(void *a);
	bool (*oom)(void *a);
	bool (*self)(void *a, int how, size_t i);
	size_t esz;
};

static int inner; /* visits of nested loops */

/* an argument with a side effect is evaluated once by every macro */
#define ONCE(n)                                                                \
	MC_CHECK((n) == 1, "evaluated", "an argument was evaluated %d times", (n))

#define DEF(n, T, TO, FROM)                                                    \
	typedef T ty_##n;                                                      \
	static int up_##n(const void *a, const void *b)                        \
	{                                                                      \
		long x = FROM(*(const ty_##n *) a),                            \
		     y = FROM(*(const ty_##n *) b);                            \
		return x < y ? -1 : x > y;                                     \
	}                                                                      \
	static int dn_##n(const void *a, const void *b)                        \
	{                                                                      \
		return up_##n(b, a);                                           \
	}                                                                      \
	static void i_##n(void *v)                                             \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		sc_array_init(a);                                              \
	}                                                                      \
	static void t_##n(void *v)                                             \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		sc_array_term(a);                                              \
	}                                                                      \
	static size_t s_##n(void *v)                                           \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		return sc_array_size(a);                                       \
	}                                                                      \
	static void c_##n(void *v)                                             \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		sc_array_clear(a);                                             \
	}                                                                      \
	static bool ad_##n(void *v, long x)                                    \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		int evals = 0;                                                 \
		sc_array_add(a, (evals++, TO(x)));                             \
		if (!sc_array_oom(a))                                          \
			ONCE(evals);                                           \
		return !sc_array_oom(a);                                       \
	}                                                                      \
	static long at_##n(void *v, size_t i)                                  \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		size_t j = i;                                                  \
		long r = FROM(sc_array_at(a, j++));                            \
		ONCE((int) (j - i));                                           \
		return r;                                                      \
	}                                                                      \
	static void se_##n(void *v, size_t i, long x)                          \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		size_t j = i;                                                  \
		sc_array_at(a, j++) = TO(x);                                   \
		ONCE((int) (j - i));                                           \
	}                                                                      \
	static void de_##n(void *v, size_t idx)                                \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		size_t j = idx;                                                \
		sc_array_del(a, j++);                                          \
		ONCE((int) (j - idx));                                         \
	}                                                                      \
	static void du_##n(void *v, size_t idx)                                \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		size_t j = idx;                                                \
		sc_array_del_unordered(a, j++);                                \
		ONCE((int) (j - idx));                                         \
	}                                                                      \
	static void dl_##n(void *v)                                            \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		sc_array_del_last(a);                                          \
	}                                                                      \
	static long la_##n(void *v)                                            \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		return FROM(sc_array_last(a));                                 \
	}                                                                      \
	static void so_##n(void *v, int desc)                                  \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		if (desc)                                                      \
			sc_array_sort(a, dn_##n);                              \
		else                                                           \
			sc_array_sort(a, up_##n);                              \
	}                                                                      \
	/* adding something computed from the array itself */                  \
	static bool sf_##n(void *v, int how, size_t i)                         \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		switch (how) {                                                 \
		case 0: sc_array_add(a, sc_array_at(a, v ? i : 0)); break;     \
		case 1: sc_array_add(a, sc_array_last(a)); break;              \
		default: sc_array_add(a, TO((long) sc_array_size(a))); break;  \
		}                                                              \
		return !sc_array_oom(a);                                       \
	}                                                                      \
	static bool oo_##n(void *v)                                            \
	{                                                                      \
		return sc_array_oom((struct sc_array_##n *) v);                \
	}                                                                      \
	static size_t ca_##n(void *v)                                          \
	{                                                                      \
		return ((struct sc_array_##n *) v)->cap;                       \
	}                                                                      \
	static int ea_##n(void *v, long *out, int max, int stop)               \
	{                                                                      \
		struct sc_array_##n *a = v;                                    \
		T el;                                                          \
		T e2;                                                          \
		int c = 0;                                                     \
		sc_array_foreach (a, el) {                                     \
			if (c < max)                                           \
				out[c] = FROM(el);                             \
			c++;                                                   \
			if (stop < 0) {                                        \
				sc_array_foreach (a, e2)                       \
					break;                                 \
				sc_array_foreach (a, e2)                       \
					inner++;                               \
				(void) e2;                                     \
				continue;                                      \
			}                                                      \
			if (c == stop)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}

#define NUM(x) ((int) ((x) * 1000003L))
#define UNUM(x) ((long) (x) / 1000003L)
#define U32(x) ((uint32_t) (0xf0000000u + (uint32_t) (x)))
#define FU32(x) ((long) (uint32_t) ((x) - 0xf0000000u))
#define U64(x) (0xf000000000000000ull + (uint64_t) (x))
#define FU64(x) ((long) ((uint64_t) (x) - 0xf000000000000000ull))
#define DBL(x) ((double) (x) + 0.5)
#define FDBL(x) ((long) (x))
#define PTR(x) ((void *) (uintptr_t) ((x) + (1L << 40)))
#define CPTR(x) ((const char *) PTR(x))
#define FPTR(x) ((long) (uintptr_t) (x) - (1L << 40))
#define L64(x) ((x) - (1L << 50))
#define FL64(x) ((long) (x) + (1L << 50))

struct big {
	long a[5];
};
static struct big to_big(long x)
{
	return (struct big) {{x, x + 1, x + 2, x + 3, x ^ 0x55}};
}
static long from_big(struct big b)
{
	return b.a[0] + 1 == b.a[1] && b.a[2] == b.a[0] + 2 &&
			       b.a[4] == (b.a[0] ^ 0x55) ?
		       b.a[0] :
		       -1;
}
sc_array_def(struct big, big);
sc_array_def(uint8_t, u8);
#define U8(x) ((uint8_t) (x))
#define FU8(x) ((long) (x))

DEF(int, int, NUM, UNUM)
DEF(uint, unsigned int, U32, FU32)
DEF(long, long, L64, FL64)
DEF(ll, long long, L64, FL64)
DEF(ulong, unsigned long, U64, FU64)
DEF(ull, unsigned long long, U64, FU64)
DEF(32, uint32_t, U32, FU32)
DEF(64, uint64_t, U64, FU64)
DEF(double, double, DBL, FDBL)
DEF(str, const char *, CPTR, FPTR)
DEF(ptr, void *, PTR, FPTR)
DEF(big, struct big, to_big, from_big)
DEF(u8, uint8_t, U8, FU8)

#define VT(n)                                                                  \
	{                                                                      \
		#n, i_##n, t_##n, s_##n, c_##n, ad_##n, at_##n, se_##n,        \
			de_##n, du_##n, dl_##n, la_##n, so_##n, ea_##n, ca_##n,\
			oo_##n, sf_##n, sizeof(ty_##n)                                 \
	}
static const struct vt vts[] = {VT(int), VT(uint), VT(long), VT(ll), VT(ulong),
				VT(ull), VT(32),   VT(64),   VT(double),
				VT(str), VT(ptr),  VT(big),  VT(u8)};
#define NVT ((int) (sizeof(vts) / sizeof(vts[0])))

static const struct vt *vt;
static union {
	struct sc_array_64 a;
	uint8_t raw[sizeof(struct sc_array_big) + 16];
} obj;
static struct {
	int32_t n;
	uint8_t v[MAXN];
} m;
static int prefill, max_n;

static void sys_init(void)
{
	memset(&obj, 0x5c, sizeof(obj));
	memset(&m, 0, sizeof(m));
	vt->init(&obj);
	for (int i = 0; i < prefill; i++) {
		uint8_t v = (uint8_t) (10 + (i * 7) % 31);
		MC_CHECK(vt->add(&obj, v), "add", "add reports oom");
		m.v[m.n++] = v;
	}
}

/* ops: 0..2 add value, 3 del_last, 4/5 sort, 6 clear, 7 reinit, 8.. del(i),
 * 8+MAXN.. del_unordered(i), 8+2*MAXN.. assign(i) */
#define NOPS (8 + 3 * MAXN)

static int bcmp_(const void *a, const void *b)
{
	return *(const uint8_t *) a - *(const uint8_t *) b;
}

static bool apply(int op)
{
	static const uint8_t nv[] = {5, 20, 99};

	if (op < 3) {
		if (m.n >= max_n)
			return false;
		if (!vt->add(&obj, nv[op])) {
			MC_CHECK(mc_alloc_failed > 0 ||
					 vt->cap(&obj) * 2 * vt->esz > array_max,
				 "oom-spurious",
				 "add reports out of memory although no "
				 "allocation failed");
			return true;
		}
		m.v[m.n++] = nv[op];
		return true;
	}
	switch (op) {
	case 3:
		if (!m.n)
			return false;
		vt->dell(&obj);
		m.v[--m.n] = 0;
		return true;
	case 4:
		if (!m.n)
			return false;
		vt->sort(&obj, 0);
		qsort(m.v, (size_t) m.n, 1, bcmp_);
		return true;
	case 5:
		if (!m.n)
			return false;
		vt->sort(&obj, 1);
		qsort(m.v, (size_t) m.n, 1, bcmp_);
		for (int i = 0; i < m.n / 2; i++) {
			uint8_t t = m.v[i];
			m.v[i] = m.v[m.n - 1 - i];
			m.v[m.n - 1 - i] = t;
		}
		return true;
	case 6:
		vt->clear(&obj);
		memset(&m, 0, sizeof(m));
		return true;
	case 7:
		vt->term(&obj);
		MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		memset(&m, 0, sizeof(m));
		vt->init(&obj);
		return true;
	default:
		break;
	}
	op -= 8;
	if (op % MAXN >= m.n)
		return false;
	if (op < MAXN) {
		vt->del(&obj, (size_t) op);
		memmove(m.v + op, m.v + op + 1, (size_t) (m.n - op - 1));
		m.v[--m.n] = 0;
	} else if (op < 2 * MAXN) {
		op -= MAXN;
		vt->delu(&obj, (size_t) op);
		m.v[op] = m.v[m.n - 1];
		m.v[--m.n] = 0;
	} else {
		op -= 2 * MAXN;
		vt->set(&obj, (size_t) op, 77);
		m.v[op] = 77;
	}
	return true;
}

static void check(void)
{
	long out[MAXN + 4];
	int c;

	MC_CHECK(vt->cap(&obj) * vt->esz <= array_max, "limit",
		 "capacity %zu exceeds the limit", vt->cap(&obj));
	MC_CHECK(vt->size(&obj) == (size_t) m.n, "size",
		 "size is %zu, expected %d", vt->size(&obj), m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(vt->at(&obj, (size_t) i) == m.v[i], "at",
			 "element at %d is %ld, expected %d", i,
			 vt->at(&obj, (size_t) i), m.v[i]);
	if (m.n)
		MC_CHECK(vt->last(&obj) == m.v[m.n - 1], "last", "last()");
	c = vt->each(&obj, out, MAXN, 0);
	MC_CHECK(c == m.n, "foreach", "foreach visited %d of %d", c, m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(out[i] == m.v[i], "foreach", "foreach order at %d", i);
	for (int s = 1; s <= m.n; s += 3)
		MC_CHECK(vt->each(&obj, out, MAXN, s) == s, "foreach-break",
			 "foreach went on after break");
	inner = 0;
	c = vt->each(&obj, out, MAXN, -1);
	MC_CHECK(c == m.n && inner == m.n * m.n, "foreach-continue",
		 "foreach with continue and loops inside made %d and %d "
		 "visits of %d elements", c, inner, m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(out[i] == m.v[i], "foreach-continue",
			 "foreach order at %d", i);
	/* elements computed from the array itself; the first one may have to grow */
	for (int j = 0; m.n && j < 3; j++) {
		int how = (j + m.v[0]) % 3;
		long want = how == 0 ? m.v[m.n / 2] : how == 1 ? m.v[m.n - 1] : m.n, got;

		if (!vt->self(&obj, how, (size_t) m.n / 2)) {
			MC_CHECK(vt->cap(&obj) * 2 * vt->esz > array_max, "oom-spurious",
				 "add reports out of memory although no allocation failed");
			break;
		}
		got = vt->last(&obj);
		MC_CHECK(got == want && vt->size(&obj) == (size_t) m.n + 1, "add-self",
			 "adding %s added %ld, expected %ld",
			 how == 0 ? "an element" : how == 1 ? "the last element" : "the size", got, want);
		for (int i = 0; i < m.n; i++)
			MC_CHECK(vt->at(&obj, (size_t) i) == m.v[i], "add-self",
				 "element at %d changed", i);
		vt->dell(&obj);
	}
}

static void term(void)
{
	vt->term(&obj);
	vt->term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	static const char *s[] = {"add(5)",    "add(20)",    "add(99)",
				  "del_last",  "sort(up)",   "sort(down)",
				  "clear",     "term+init"};
	if (op < 8)
		snprintf(b, n, "%s", s[op]);
	else
		snprintf(b, n, "%s(%d)",
			 op - 8 < MAXN	   ? "del" :
			 op - 8 < 2 * MAXN ? "del_unordered" :
					     "assign",
			 (op - 8) % MAXN);
}

/* more elements than 32 bits can count */
#define GV(i) ((uint8_t) ((i) ^ (i) >> 9 ^ (i) >> 25))
__attribute__((no_sanitize("address"), optimize("O2"))) static void giant(void)
{
	const size_t n = (1ul << 32) + 5, p31 = 1ul << 31, p32 = 1ul << 32;
	static struct sc_array_u8 a;
	uint8_t x;
	size_t c = 0, i;

	if (!mc_mine("array u8 giant"))
		return;
	array_max = SIZE_MAX;
	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1ul << 34;
	sc_array_init(&a);
	for (i = 0; i < n; i++) {
		sc_array_add(&a, GV(i));
		MC_CHECK(!a.oom, "oom-spurious", "add reports out of memory at %zu elements", i);
		if (!(i & 0xffffff))
			mc_tick();
	}
	mc_evals++;
	MC_CHECK(sc_array_size(&a) == n && sc_array_last(&a) == GV(n - 1), "giant", "size %zu", sc_array_size(&a));
	for (i = 0; i < n; i += i % 65536 == 9 ? 65527 : 1)
		MC_CHECK(sc_array_at(&a, i) == GV(i), "giant", "element %zu", i);
	sc_array_foreach (&a, x) {
		if (x != GV(c) || ++c > n)
			break;
	}
	mc_tick();
	MC_CHECK(c == n, "giant", "foreach visited %zu of %zu elements", c, n);
	/* positions beyond 2^32 and 2^31 */
	sc_array_del(&a, p32 + 1);
	MC_CHECK(a.size == n - 1 && sc_array_at(&a, p32) == GV(p32) && sc_array_at(&a, p32 + 1) == GV(p32 + 2) &&
		 sc_array_last(&a) == GV(n - 1), "giant", "del beyond 2^32");
	sc_array_del_unordered(&a, p32 + 1);
	MC_CHECK(a.size == n - 2 && sc_array_at(&a, p32 + 1) == GV(n - 1) && sc_array_at(&a, 1) == GV(1ul),
		 "giant", "del_unordered beyond 2^32");
	sc_array_del(&a, p31 - 3);
	mc_tick();
	MC_CHECK(a.size == n - 3 && sc_array_at(&a, p31 - 4) == GV(p31 - 4) && sc_array_at(&a, p31 - 3) == GV(p31 - 2) &&
		 sc_array_at(&a, p32 - 1) == GV(p32) && sc_array_last(&a) == GV(n - 2), "giant", "del before 2^31");
	sc_array_del_last(&a);
	MC_CHECK(a.size == n - 4 && sc_array_last(&a) == GV(n - 1), "giant", "del_last");
	sc_array_clear(&a);
	MC_CHECK(sc_array_size(&a) == 0, "giant", "clear");
	sc_array_term(&a);
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	mc_big_limit = 0;
}

/* histories with more elements than the breadth-first ones reach: fill, with
 * every growth failing once, sort both ways, remove from everywhere, refill */
static long midv(size_t i)
{
	return (long) ((i * 37 + i / 11) % 97);
}

static void mid_same(const uint8_t *w, size_t n, const char *what)
{
	MC_CHECK(vt->size(&obj) == n, "mid", "after %s the size is %zu, expected %zu", what, vt->size(&obj), n);
	for (size_t i = 0; i < n; i++)
		MC_CHECK(vt->at(&obj, i) == w[i], "mid", "after %s element %zu of %zu is %ld, expected %d", what, i, n,
			 vt->at(&obj, i), w[i]);
	if (n)
		MC_CHECK(vt->last(&obj) == w[n - 1], "mid", "last() after %s", what);
}

static void mid(size_t top)
{
	static uint8_t w[1 << 17];
	static long out[1 << 17];
	size_t n, k;

	mc_heap_reset();
	mc_big_limit = 1ul << 26;
	array_max = SIZE_MAX;
	memset(&obj, 0x5c, sizeof(obj));
	vt->init(&obj);
	for (int round = 0; round < 2; round++) {
		for (n = 0; n < top; n++) {
			w[n] = (uint8_t) midv(n + (size_t) round);
			mc_alloc_reset(1);
			if (!vt->add(&obj, w[n])) {
				MC_CHECK(mc_alloc_failed > 0, "oom-spurious",
					 "add of element %zu reports out of memory although no allocation failed", n);
				mid_same(w, n, "a failed add");
				mc_alloc_reset(0);
				MC_CHECK(vt->add(&obj, w[n]), "oom-spurious", "add of element %zu fails again", n);
			}
			mc_alloc_reset(0);
			if (!(n & (n + 1)) || n + 1 == top)
				mid_same(w, n + 1, "add");
			mc_evals++;
		}
		vt->sort(&obj, 0);
		qsort(w, n, 1, bcmp_);
		mid_same(w, n, "an ascending sort");
		MC_CHECK(vt->each(&obj, out, 1 << 17, 0) == (int) n, "foreach", "foreach does not visit all of %zu", n);
		for (size_t i = 0; i < n; i++)
			MC_CHECK(out[i] == w[i], "foreach", "foreach order at %zu of %zu", i, n);
		vt->sort(&obj, 1);
		for (size_t i = 0; i < n / 2; i++) {
			uint8_t t = w[i];
			w[i] = w[n - 1 - i];
			w[n - 1 - i] = t;
		}
		mid_same(w, n, "a descending sort");
		for (size_t i = 0; i < n; i++) {
			w[i] = (uint8_t) midv(i * 3 + n);
			vt->set(&obj, i, w[i]);
		}
		for (int d = 0; d < 12 && n > 3; d++) {
			static const char *const dn[] = {"del", "del_unordered", "del_last"};

			k = d % 4 == 0 ? 0 : d % 4 == 1 ? n - 1 : d % 4 == 2 ? n / 2 : n - 2;
			if (d % 3 == 0) {
				vt->del(&obj, k);
				memmove(w + k, w + k + 1, n - k - 1);
			} else if (d % 3 == 1) {
				vt->delu(&obj, k);
				w[k] = w[n - 1];
			} else {
				vt->dell(&obj);
			}
			mid_same(w, --n, dn[d % 3]);
			mc_evals++;
		}
		if (!round) {
			vt->clear(&obj);
			mid_same(w, 0, "clear");
		}
	}
	vt->term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
	/* term leaves an empty array, as init does */
	mid_same(w, 0, "term");
	MC_CHECK(vt->add(&obj, 3), "oom-spurious", "add after term fails");
	w[0] = 3;
	mid_same(w, 1, "term and add");
	vt->term(&obj);
	/* a failed first add and a term */
	mc_alloc_reset(1);
	MC_CHECK(!vt->add(&obj, 3), "oom-missed", "add succeeds without memory");
	mc_alloc_reset(0);
	mid_same(w, 0, "a failed first add");
	vt->term(&obj);
	MC_CHECK(!vt->oom(&obj), "oom-stale", "a terminated array reports out of memory");
	vt->term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
	mc_big_limit = 0;
}

int main(int argc, char **argv)
{
	static const int pre[] = {0, 1, 2, 6, 7, 8, 15, 16, 17, 31};

	mc_init(argc, argv);
	giant();
	for (int i = 0; i < NVT; i++) {
		static const size_t tops[] = {1, 9, 33, 65, 100, 257, 1025, 4097, 70001};

		for (unsigned k = 0; k < sizeof(tops) / sizeof(tops[0]); k++) {
			vt = &vts[i];
			if (tops[k] > 5000 && i && vt->esz != 1 && !mc_thorough)
				continue;
			if (mc_mine("array %s %zu elements", vt->name, tops[k]))
				mid(tops[k]);
		}
	}
	for (int i = 0; i < NVT; i++) {
		static const size_t lims[] = {0, 8, 15, 16, 17};

		for (unsigned q = 0; q < 5; q++)
		for (unsigned p = 0; p < sizeof(pre) / sizeof(pre[0]); p++) {
			static struct mc_sys s;
			int depth = pre[p] <= 2 ? 5 : pre[p] < 10 ? 3 : 2;

			if (mc_thorough)
				depth += 1 + (pre[p] <= 8);
			if (q)
				depth = 2;
			if (q && (size_t) pre[p] > (lims[q] < 16 ? 8 : 16))
				continue;
			if (!mc_mine("array %s prefill=%d depth=%d limit=%zu",
				     vts[i].name, pre[p], depth, lims[q]))
				continue;
			array_max = q ? lims[q] * vts[i].esz : SIZE_MAX;
			prefill = pre[p];
			max_n = MAXN - 1;
			vt = &vts[i];
			memset(&s, 0, sizeof(s));
			s.init = sys_init;
			s.apply = apply;
			s.check = check;
			s.term = term;
			s.opname = opname;
			s.nops = NOPS;
			s.faults = true;
			s.max_depth = depth;
			s.max_states = mc_thorough ? 1500000 : 60000;
			mc_regions_clear();
			mc_region(&obj, sizeof(obj));
			mc_region(&m, sizeof(m));
			mc_bfs(&s);
		}
	}
	return mc_done();
}
