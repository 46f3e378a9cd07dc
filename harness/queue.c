/* C03: every queue type against a reference deque. */
#include "mc.h"

#include <stdlib.h>
#include <string.h>
static size_t queue_max = SIZE_MAX;
#define SC_QUEUE_MAX queue_max
#include "sc_queue.h"

#define MAXN 40

static int limit_n; /* largest size explored */

struct vt {
	const char *name;
	size_t sz;
	bool (*init)(void *q); /* false: oom */
	void (*term)(void *q);
	size_t (*size)(void *q);
	bool (*empty)(void *q);
	void (*clear)(void *q);
	bool (*addl)(void *q, long v);
	bool (*addf)(void *q, long v);
	long (*dell)(void *q);
	long (*delf)(void *q);
	long (*at)(void *q, size_t i);
	long (*pf)(void *q);
	long (*pl)(void *q);
	int (*each)(void *q, long *out, int max, int stop);
	int (*iter)(void *q, long *out, int max);
	size_t (*cap)(void *q);
	bool (*self)(void *q, int how, size_t i);
};

static int inner; /* visits of nested loops */

/* an argument with a side effect is evaluated once by every macro */
#define ONCE(n)                                                                \
	MC_CHECK((n) == 1, "evaluated", "an argument was evaluated %d times", (n))

#define DEF(n, T, TO, FROM)                                                    \
	static bool i_##n(void *v)                                             \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		sc_queue_init(q);                                              \
		return !sc_queue_oom(q);                                       \
	}                                                                      \
	static void t_##n(void *v)                                             \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		sc_queue_term(q);                                              \
	}                                                                      \
	static size_t s_##n(void *v)                                           \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return sc_queue_size(q);                                       \
	}                                                                      \
	static bool e_##n(void *v)                                             \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return sc_queue_empty(q);                                      \
	}                                                                      \
	static void c_##n(void *v)                                             \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		sc_queue_clear(q);                                             \
	}                                                                      \
	static bool al_##n(void *v, long x)                                    \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		int evals = 0;                                                 \
		sc_queue_add_last(q, (evals++, TO(x)));                  \
		if (!sc_queue_oom(q))                                          \
			ONCE(evals);                                           \
		return !sc_queue_oom(q);                                       \
	}                                                                      \
	static bool af_##n(void *v, long x)                                    \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		int evals = 0;                                                 \
		sc_queue_add_first(q, (evals++, TO(x)));                 \
		if (!sc_queue_oom(q))                                          \
			ONCE(evals);                                           \
		return !sc_queue_oom(q);                                       \
	}                                                                      \
	static long dl_##n(void *v)                                            \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return FROM(sc_queue_del_last(q));                             \
	}                                                                      \
	static long df_##n(void *v)                                            \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return FROM(sc_queue_del_first(q));                            \
	}                                                                      \
	static long at_##n(void *v, size_t i)                                  \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		size_t j = i;                                                  \
		long r = FROM(sc_queue_at(q, j++));                            \
		ONCE((int) (j - i));                                           \
		return r;                                                      \
	}                                                                      \
	static long pf_##n(void *v)                                            \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return FROM(sc_queue_peek_first(q));                           \
	}                                                                      \
	static long pl_##n(void *v)                                            \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		return FROM(sc_queue_peek_last(q));                            \
	}                                                                      \
	static int ea_##n(void *v, long *out, int max, int stop)               \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		T el;                                                          \
		T e2;                                                          \
		int c = 0;                                                     \
		sc_queue_foreach (q, el) {                                     \
			if (c < max)                                           \
				out[c] = FROM(el);                             \
			c++;                                                   \
			if (stop < 0) {                                        \
				sc_queue_foreach (q, e2)                       \
					break;                                 \
				sc_queue_foreach (q, e2)                       \
					inner++;                               \
				(void) e2;                                     \
				continue;                                      \
			}                                                      \
			if (c == stop)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}                                                                      \
	static size_t ca_##n(void *v)                                          \
	{                                                                      \
		return ((struct sc_queue_##n *) v)->cap;                       \
	}                                                                      \
	/* adding an element of the queue itself */                            \
	static bool sf_##n(void *v, int how, size_t i)                         \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		switch (how) {                                                 \
		case 0: sc_queue_add_first(q, sc_queue_peek_first(q)); break;  \
		case 1: sc_queue_add_first(q, sc_queue_peek_last(q)); break;   \
		case 2: sc_queue_add_first(q, sc_queue_at(q, v ? i : 0)); break; \
		case 3: sc_queue_add_last(q, sc_queue_peek_first(q)); break;   \
		case 4: sc_queue_add_last(q, sc_queue_peek_last(q)); break;    \
		case 5: sc_queue_add_last(q, sc_queue_at(q, v ? i : 0)); break; \
		case 6: sc_queue_add_last(q, TO((long) sc_queue_size(q))); break; \
		case 8: sc_queue_add_last(q, sc_queue_del_first(q)); break;    \
		case 9: sc_queue_add_first(q, sc_queue_del_last(q)); break;    \
		default: sc_queue_add_first(q, TO((long) sc_queue_size(q))); break; \
		}                                                              \
		return !sc_queue_oom(q);                                       \
	}                                                                      \
	static int it_##n(void *v, long *out, int max)                         \
	{                                                                      \
		struct sc_queue_##n *q = v;                                    \
		int c = 0;                                                     \
		for (size_t i = sc_queue_first(q); i != sc_queue_last(q);      \
		     i = sc_queue_next(q, i)) {                                \
			if (c < max)                                           \
				out[c] = FROM(q->elems[i]);                    \
			if (c++ > max)                                         \
				break;                                         \
		}                                                              \
		return c;                                                      \
	}

#define NUM(x) ((x) * 1000003L)
#define UNUM(x) ((long) (x) / 1000003L)
#define U32(x) ((uint32_t) (0xffffffffu - (uint32_t) (x)))
#define FU32(x) ((long) (uint32_t) (0xffffffffu - (x)))
#define U64(x) (0xffffffffffffffffull - (uint64_t) (x))
#define FU64(x) ((long) (0xffffffffffffffffull - (uint64_t) (x)))
#define DBL(x) ((double) (x) + 0.5)
#define FDBL(x) ((long) (x))
#define PTR(x) ((void *) (uintptr_t) ((x) + (1L << 40)))
#define CPTR(x) ((const char *) PTR(x))
#define FPTR(x) ((long) (uintptr_t) (x) - (1L << 40))
#define L64(x) (-(x) - (1L << 50))
#define FL64(x) (-((long) (x) + (1L << 50)))

struct big {
	long a[5];
};
static struct big to_big(long x)
{
	return (struct big) {{x, x + 1, x + 2, x + 3, x ^ 0x55}};
}
static long from_big(struct big b)
{
	return b.a[0] + 1 == b.a[1] && b.a[2] == b.a[0] + 2 &&
			       b.a[4] == (b.a[0] ^ 0x55) ?
		       b.a[0] :
		       -1;
}
sc_queue_def(struct big, big);
sc_queue_def(uint8_t, u8);
#define U8(x) ((uint8_t) (x))
#define FU8(x) ((long) (x))

DEF(int, int, NUM, UNUM)
DEF(uint, unsigned int, U32, FU32)
DEF(long, long, L64, FL64)
DEF(ll, long long, L64, FL64)
DEF(ulong, unsigned long, U64, FU64)
DEF(ull, unsigned long long, U64, FU64)
DEF(32, uint32_t, U32, FU32)
DEF(64, uint64_t, U64, FU64)
DEF(double, double, DBL, FDBL)
DEF(str, const char *, CPTR, FPTR)
DEF(ptr, void *, PTR, FPTR)
DEF(big, struct big, to_big, from_big)
DEF(u8, uint8_t, U8, FU8)

#define VT(n)                                                                  \
	{                                                                      \
		#n, sizeof(struct sc_queue_##n), i_##n, t_##n, s_##n, e_##n,   \
			c_##n, al_##n, af_##n, dl_##n, df_##n, at_##n, pf_##n, \
			pl_##n, ea_##n, it_##n, ca_##n, sf_##n                 \
	}
static const struct vt vts[] = {VT(int), VT(uint), VT(long), VT(ll), VT(ulong),
				VT(ull), VT(32),   VT(64),   VT(double),
				VT(str), VT(ptr),  VT(big),  VT(u8)};
#define NVT ((int) (sizeof(vts) / sizeof(vts[0])))

static const struct vt *vt;
static union {
	struct sc_queue_64 q;
	uint8_t raw[sizeof(struct sc_queue_big) + 16];
} obj;
/* Elements are numbered by their logical position, so that what stale slots
 * hold is a function of the position and the state space stays finite. */
static struct {
	int32_t head;
	int32_t n;
	uint8_t v[MAXN];
	uint8_t rsv[8];
} m;

static void sys_init(void)
{
	memset(&obj, 0x5c, sizeof(obj));
	memset(&m, 0, sizeof(m));
	MC_CHECK(vt->init(&obj), "init", "init reports out of memory");
}

enum { ADDL, ADDF, DELL, DELF, CLEAR, REINIT, NOPS };

static bool apply(int op)
{
	long r;
	bool ok;
	uint8_t v;

	switch (op) {
	case ADDL:
	case ADDF:
		if (m.n >= limit_n)
			return false;
		v = (uint8_t) ((op == ADDL ? m.head + m.n : m.head - 1) & 31);
		ok = op == ADDL ? vt->addl(&obj, v) : vt->addf(&obj, v);
		if (!ok) {
			MC_CHECK(mc_alloc_failed > 0 ||
					 vt->cap(&obj) * 2 > queue_max,
				 "oom-spurious",
				 "add reports out of memory although no "
				 "allocation failed");
			return true;
		}
		if (op == ADDL) {
			m.v[m.n++] = v;
		} else {
			memmove(m.v + 1, m.v, (size_t) m.n);
			m.v[0] = v;
			m.n++;
			m.head = (m.head - 1) & 31;
		}
		return true;
	case DELL:
		if (!m.n)
			return false;
		r = vt->dell(&obj);
		MC_CHECK(r == m.v[m.n - 1], "del_last",
			 "del_last returned element %ld, expected %d", r,
			 m.v[m.n - 1]);
		m.v[--m.n] = 0;
		return true;
	case DELF:
		if (!m.n)
			return false;
		r = vt->delf(&obj);
		MC_CHECK(r == m.v[0], "del_first",
			 "del_first returned element %ld, expected %d", r,
			 m.v[0]);
		m.n--;
		memmove(m.v, m.v + 1, (size_t) m.n);
		m.v[m.n] = 0;
		m.head = (m.head + 1) & 31;
		return true;
	case CLEAR:
		vt->clear(&obj);
		memset(&m, 0, sizeof(m));
		return true;
	case REINIT:
		vt->term(&obj);
		MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		memset(&m, 0, sizeof(m));
		memset(&obj, 0x5c, sizeof(obj));
		if (!vt->init(&obj)) {
			MC_CHECK(mc_alloc_failed > 0, "init",
				 "init reports out of memory");
			vt->term(&obj);
			MC_CHECK(!mc_live_blocks(), "leak", "leak");
			mc_alloc_reset(0);
			MC_CHECK(vt->init(&obj), "init", "init failed");
		}
		return true;
	default:
		return false;
	}
}

static void check(void)
{
	long out[MAXN + 4];
	int c;

	MC_CHECK(vt->cap(&obj) <= queue_max, "limit",
		 "capacity %zu exceeds the limit", vt->cap(&obj));
	MC_CHECK(vt->size(&obj) == (size_t) m.n, "size",
		 "size is %zu, expected %d", vt->size(&obj), m.n);
	MC_CHECK(vt->empty(&obj) == (m.n == 0), "empty", "empty() is wrong");
	for (int i = 0; i < m.n; i++)
		MC_CHECK(vt->at(&obj, (size_t) i) == m.v[i], "at",
			 "element at %d is %ld, expected %d", i,
			 vt->at(&obj, (size_t) i), m.v[i]);
	if (m.n) {
		MC_CHECK(vt->pf(&obj) == m.v[0], "peek_first", "peek_first");
		MC_CHECK(vt->pl(&obj) == m.v[m.n - 1], "peek_last",
			 "peek_last");
	}
	c = vt->each(&obj, out, MAXN, 0);
	MC_CHECK(c == m.n, "foreach", "foreach visited %d of %d", c, m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(out[i] == m.v[i], "foreach",
			 "foreach: element %d is %ld, expected %d", i, out[i],
			 m.v[i]);
	c = vt->iter(&obj, out, MAXN);
	MC_CHECK(c == m.n, "iterate", "iteration visited %d of %d", c, m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(out[i] == m.v[i], "iterate", "iteration order");
	for (int s = 1; s <= m.n; s += 3)
		MC_CHECK(vt->each(&obj, out, MAXN, s) == s, "foreach-break",
			 "foreach went on after break");
	inner = 0;
	c = vt->each(&obj, out, MAXN, -1);
	MC_CHECK(c == m.n && inner == m.n * m.n, "foreach-continue",
		 "foreach with continue and loops inside made %d and %d "
		 "visits of %d elements", c, inner, m.n);
	for (int i = 0; i < m.n; i++)
		MC_CHECK(out[i] == m.v[i], "foreach-continue",
			 "foreach order at %d", i);
	/* elements computed from the queue itself; the order varies, the first one may have to grow */
	for (int j = 0; m.n && j < 8; j++) {
		int how = (j + m.head) % 8, i = m.n / 2;
		long want = how == 0 || how == 3 ? m.v[0] :
			    how == 1 || how == 4 ? m.v[m.n - 1] :
			    how == 2 || how == 5 ? m.v[i] : m.n, got;

		if (!vt->self(&obj, how, (size_t) i)) {
			MC_CHECK(vt->cap(&obj) * 2 > queue_max, "oom-spurious",
				 "add reports out of memory although no allocation failed");
			break;
		}
		got = how < 3 || how == 7 ? vt->delf(&obj) : vt->dell(&obj);
		MC_CHECK(got == want, "add-self",
			 "adding %s at the %s added element %ld, expected %ld",
			 how >= 6 ? "the size" : how % 3 == 0 ? "the first element" :
			 how % 3 == 1 ? "the last element" : "an element",
			 how < 3 || how == 7 ? "front" : "end", got, want);
		for (i = 0; i < m.n; i++)
			MC_CHECK(vt->at(&obj, (size_t) i) == m.v[i], "add-self",
				 "element at %d changed", i);
	}
	/* rotations: the element added is the one deleted by the argument */
	if (m.n && vt->cap(&obj) * 2 <= queue_max) {
		MC_CHECK(vt->self(&obj, 8, 0), "oom-spurious",
			 "add reports out of memory although no allocation failed");
		for (int i = 0; i < m.n; i++)
			MC_CHECK(vt->at(&obj, (size_t) i) == m.v[(i + 1) % m.n], "rotate",
				 "element at %d after moving the first one to the end", i);
		MC_CHECK(vt->size(&obj) == (size_t) m.n, "rotate", "size after a rotation");
		MC_CHECK(vt->self(&obj, 9, 0), "oom-spurious",
			 "add reports out of memory although no allocation failed");
		for (int i = 0; i < m.n; i++)
			MC_CHECK(vt->at(&obj, (size_t) i) == m.v[i], "rotate",
				 "element at %d after moving the last one to the front", i);
		MC_CHECK(vt->size(&obj) == (size_t) m.n, "rotate", "size after a rotation");
	}
	/* drain from both ends */
	for (int i = 0, a = 0, b = m.n - 1; i < m.n; i++) {
		if (i & 1) {
			MC_CHECK(vt->dell(&obj) == m.v[b], "drain", "drain");
			b--;
		} else {
			MC_CHECK(vt->delf(&obj) == m.v[a], "drain", "drain");
			a++;
		}
	}
	MC_CHECK(vt->empty(&obj), "drain", "not empty after the last delete");
}

static void term(void)
{
	vt->term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	static const char *s[] = {"add_last",  "add_first", "del_last",
				  "del_first", "clear",	    "term+init"};
	snprintf(b, n, "%s", s[op]);
}

/* more elements than 31 bits can count, and room for more than 32 bits can count */
#define GV(i) ((uint8_t) ((i) ^ (i) >> 9 ^ (i) >> 25))
__attribute__((no_sanitize("address"), optimize("O2"))) static void giant(void)
{
	const size_t n = (1ul << 31) + 5;
	static struct sc_queue_u8 q;
	uint8_t x;
	size_t c = 0, i;

	if (!mc_mine("queue u8 giant"))
		return;
	queue_max = SIZE_MAX;
	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1ul << 34;
	sc_queue_init(&q);
	for (i = 0; i < n; i++) {
		/* at the end of the ring, so that growing has to join two parts */
		if (i == (1ul << 30) + 100)
			sc_queue_add_first(&q, GV(0ul - 1));
		sc_queue_add_last(&q, GV(i));
		MC_CHECK(!q.oom, "oom-spurious", "add reports out of memory at %zu elements", i);
		if (!(i & 0xffffff))
			mc_tick();
	}
	mc_evals++;
	MC_CHECK(sc_queue_size(&q) == n + 1 && sc_queue_peek_last(&q) == GV(n - 1) && sc_queue_peek_first(&q) == GV(0ul - 1) &&
		 !sc_queue_empty(&q), "giant", "size %zu", sc_queue_size(&q));
	for (i = 0; i < n; i += i % 65536 == 9 ? 65527 : 1)
		MC_CHECK(sc_queue_at(&q, i) == GV(i - 1), "giant", "element %zu", i);
	sc_queue_foreach (&q, x) {
		if (x != GV(c - 1) || ++c > n + 1)
			break;
	}
	mc_tick();
	MC_CHECK(c == n + 1, "giant", "foreach visited %zu of %zu elements", c, n + 1);
	/* across the end of the ring, from both sides */
	for (i = 2; i < 10; i++)
		sc_queue_add_first(&q, GV(0ul - i));
	MC_CHECK(sc_queue_size(&q) == n + 9, "giant", "size %zu", sc_queue_size(&q));
	c = 0;
	for (i = sc_queue_first(&q); c < 100 && i != sc_queue_last(&q); i = sc_queue_next(&q, i), c++)
		MC_CHECK(q.elems[i] == GV(c - 9), "giant", "element %zu of the iteration", c);
	for (i = 0; i < 20; i++) {
		uint8_t a = sc_queue_del_first(&q), b = sc_queue_del_last(&q);
		MC_CHECK(a == GV(i - 9) && b == GV(n - 1 - i), "giant", "deleting %zu elements", i);
	}
	MC_CHECK(sc_queue_size(&q) == n + 9 - 40 && sc_queue_at(&q, 5) == GV(16ul), "giant", "size %zu",
		 sc_queue_size(&q));
	sc_queue_clear(&q);
	MC_CHECK(sc_queue_size(&q) == 0, "giant", "clear");
	sc_queue_term(&q);
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	mc_big_limit = 0;
}

/* more bytes than 32 bits can count */
struct e16 {
	uint64_t a, b;
};
sc_queue_def(struct e16, e16);
__attribute__((no_sanitize("address"), optimize("O2"))) static void giant16(size_t front)
{
	const size_t n = (1ul << 28) + 5;
	static struct sc_queue_e16 q;
	struct e16 x;

	if (!mc_mine("queue of 16 byte elements giant, %zu at the front", front))
		return;
	queue_max = SIZE_MAX;
	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1ul << 34;
	sc_queue_init(&q);
	for (size_t i = 0; i < n; i++) {
		x = (struct e16) {i, ~i};
		if (front && i == (1ul << 27) + 100)
			sc_queue_add_first(&q, ((struct e16) {~0ul, 0}));
		sc_queue_add_last(&q, x);
		MC_CHECK(!q.oom, "oom-spurious", "add reports out of memory at %zu elements", i);
		if (!(i & 0xffffff))
			mc_tick();
	}
	mc_evals++;
	MC_CHECK(sc_queue_size(&q) == n + front, "giant", "size %zu", sc_queue_size(&q));
	for (size_t i = 0; i < n + front; i++) {
		x = sc_queue_del_first(&q);
		MC_CHECK(x.a == i - front && x.b == ~(i - front), "giant", "element %zu", i);
		if (!(i & 0xffffff))
			mc_tick();
	}
	MC_CHECK(sc_queue_empty(&q), "giant", "not empty");
	sc_queue_term(&q);
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	mc_big_limit = 0;
}

/* growth of larger queues: the queue is full and starts at offset `rot' of its
 * buffer when one more element comes in, first without memory */
static void mid_same(const uint8_t *w, size_t n, const char *what)
{
	static long out[1 << 18];

	MC_CHECK(vt->size(&obj) == n && vt->empty(&obj) == !n, "mid", "after %s the size is %zu, expected %zu", what,
		 vt->size(&obj), n);
	for (size_t i = 0; i < n; i++)
		MC_CHECK(vt->at(&obj, i) == w[i], "mid", "after %s element %zu of %zu is %ld, expected %d", what, i, n,
			 vt->at(&obj, i), w[i]);
	if (n)
		MC_CHECK(vt->pf(&obj) == w[0] && vt->pl(&obj) == w[n - 1], "mid", "peek after %s", what);
	MC_CHECK((size_t) vt->each(&obj, out, 1 << 18, 0) == n, "foreach", "foreach does not visit all after %s", what);
	for (size_t i = 0; i < n; i++)
		MC_CHECK(out[i] == w[i], "foreach", "foreach order at %zu after %s", i, what);
}

static void mid(size_t cap, size_t rot, int front)
{
	static uint8_t buf[1 << 18];
	uint8_t *w = buf + (1 << 17);
	size_t n, i;

	mc_heap_reset();
	mc_big_limit = 1ul << 26;
	mc_alloc_reset(0);
	queue_max = SIZE_MAX;
	memset(&obj, 0x5c, sizeof(obj));
	MC_CHECK(vt->init(&obj), "init", "init reports out of memory");
	for (i = 0; i < cap - 1; i++)
		MC_CHECK(vt->addl(&obj, (long) (i % 89)), "oom-spurious", "add fails");
	for (i = 0; i < cap - 1; i++)
		MC_CHECK(vt->delf(&obj) == (long) (i % 89), "del_first", "del_first after %zu", i);
	vt->clear(&obj);
	mid_same(w, 0, "clear");
	for (i = 0; i < rot; i++) {
		MC_CHECK(vt->addl(&obj, (long) (i % 83)), "oom-spurious", "add fails");
		MC_CHECK(vt->delf(&obj) == (long) (i % 83), "del_first", "del_first after %zu", i);
	}
	for (n = 0; n < cap - 1; n++) {
		w[n] = (uint8_t) ((n * 37 + n / 11 + rot) % 97);
		mc_alloc_reset(1);
		MC_CHECK(vt->addl(&obj, w[n]), "oom-spurious", "add of element %zu in a queue that had room for %zu", n, cap - 1);
	}
	mid_same(w, n, "filling");
	for (int k = 0; k < 6; k++) {
		uint8_t v = (uint8_t) (3 + k);
		bool fr = front ^ (k & 1), ok;

		mc_alloc_reset(k < 2 ? 1 : 0);
		ok = fr ? vt->addf(&obj, v) : vt->addl(&obj, v);
		MC_CHECK(ok == (k >= 2) || !mc_alloc_failed, ok ? "oom-missed" : "oom-spurious", "add %s", ok ? "succeeded" : "failed");
		if (ok && fr)
			*--w = v;
		else if (ok)
			w[n] = v;
		n += ok;
		mid_same(w, n, "an add");
		mc_evals++;
	}
	mc_alloc_reset(0);
	for (i = 0; i < n / 2; i++) {
		MC_CHECK(vt->delf(&obj) == w[i], "del_first", "del_first of %zu", i);
		MC_CHECK(vt->dell(&obj) == w[n - 1 - i], "del_last", "del_last of %zu", i);
	}
	mid_same(w + i, n - 2 * i, "deleting from both ends");
	vt->term(&obj);
	MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
	mc_big_limit = 0;
}

/* a queue whose init failed takes no elements and does not crash */
static void no_memory(void)
{
	for (int first = 0; first < 2; first++)
		for (int clear = 0; clear < 3; clear++) {
			mc_heap_reset();
			queue_max = SIZE_MAX;
			memset(&obj, first ? 0 : 0x5c, sizeof(obj));
			mc_alloc_reset(1);
			MC_CHECK(!vt->init(&obj), "oom-missed", "init succeeds without memory");
			mc_alloc_reset(0);
			for (int k = 0; k < 4; k++) {
				if (clear == 1 || (clear == 2 && k == 2))
					vt->clear(&obj);
				MC_CHECK(!((k ^ first) & 1 ? vt->addf(&obj, 3) : vt->addl(&obj, 3)) || vt->size(&obj) == 1,
					 "oom-missed", "an add to a queue without memory reports success");
				if (vt->size(&obj)) {
					MC_CHECK(vt->delf(&obj) == 3, "mid", "element after a failed init");
				}
				mc_evals++;
			}
			vt->term(&obj);
			MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
			MC_CHECK(vt->init(&obj), "init", "init after a failed one");
			MC_CHECK(vt->addl(&obj, 4) && vt->delf(&obj) == 4, "mid", "use after a failed init and a good one");
			vt->term(&obj);
		}
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	giant();
	giant16(0);
	giant16(1);
	for (int i = 0; i < NVT; i++) {
		vt = &vts[i];
		if (mc_mine("queue %s without memory", vt->name))
			no_memory();
		for (size_t cap = 16; cap <= (i && vt->sz != 1 && !mc_thorough ? 4096u : 65536u); cap *= 2)
			for (int front = 0; front < 2; front++) {
				size_t rots[] = {0, 1, 2, cap / 4, cap / 2 - 1, cap / 2, cap / 2 + 1, cap - 2, cap - 1,
						 255, 256, 257, 1023, 1025};
				bool all = cap <= (mc_thorough ? 512 : 32);

				if (!mc_mine("queue %s capacity %zu add at the %s", vt->name, cap, front ? "front" : "end"))
					continue;
				for (size_t r = 0; r < (all ? cap : cap > 4096 && !mc_thorough ? 9 : sizeof(rots) / sizeof(rots[0])); r++)
					if (all || rots[r] < cap)
						mid(cap, all ? r : rots[r], front);
			}
	}
	for (int i = 0; i < NVT; i++) {
		for (int f = 0; f < 6; f++) {
			static const size_t lims[] = {8, 15, 16, 17};
			static struct mc_sys s;
			int lim = mc_thorough ? 36 : i < 2 || i > 10 ? 20 : 10;

			if (f > 1)
				lim = 18;
			if (!mc_mine("queue %s faults=%d max size=%d",
				     vts[i].name, f, lim))
				continue;
			queue_max = f > 1 ? lims[f - 2] : SIZE_MAX;
			limit_n = lim;
			vt = &vts[i];
			memset(&s, 0, sizeof(s));
			s.init = sys_init;
			s.apply = apply;
			s.check = check;
			s.term = term;
			s.opname = opname;
			s.nops = NOPS;
			s.faults = f == 1;
			s.max_depth = 100000;
			s.max_states = mc_thorough ? 1000000 : f > 1 ? 4000 : 40000;
			mc_regions_clear();
			mc_region(&obj, sizeof(obj));
			mc_region(&m, sizeof(m));
			mc_bfs(&s);
		}
	}
	return mc_done();
}
