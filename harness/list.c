/* C06: intrusive lists against reference sequences. */
#include "mc.h"
#include "sc_list.h"

#include <string.h>

#define NL 2
#define MAXE 6
static int ne;

struct item {
	uint8_t tag;
	struct sc_list l;
	uint32_t after;
};
static struct item it[MAXE];
static struct sc_list li[NL];
static struct {
	uint8_t n[NL];
	uint8_t v[NL][MAXE];
} m;

static void sys_init(void)
{
	memset(it, 0x5c, sizeof(it));
	memset(li, 0x5c, sizeof(li));
	memset(&m, 0, sizeof(m));
	for (int i = 0; i < MAXE; i++)
		sc_list_init(&it[i].l);
	for (int i = 0; i < NL; i++)
		sc_list_init(&li[i]);
}

static void mdel(int e)
{
	for (int l = 0; l < NL; l++)
		for (int i = 0; i < m.n[l]; i++)
			if (m.v[l][i] == e) {
				memmove(&m.v[l][i], &m.v[l][i + 1],
					(size_t) (m.n[l] - i - 1));
				m.v[l][--m.n[l]] = 0;
				return;
			}
}

static int mfind(int l, int e)
{
	for (int i = 0; i < m.n[l]; i++)
		if (m.v[l][i] == e)
			return i;
	return -1;
}

static void mins(int l, int at, int e)
{
	memmove(&m.v[l][at + 1], &m.v[l][at], (size_t) (m.n[l] - at));
	m.v[l][at] = (uint8_t) e;
	m.n[l]++;
}

static int idx(struct sc_list *p)
{
	struct item *x;

	if (!p)
		return -1;
	x = sc_list_entry(p, struct item, l);
	for (int i = 0; i < MAXE; i++)
		if (x == &it[i])
			return i;
	return -2;
}

/* op layout: kind * 128 + l * 64 + a * 8 + b */
enum { AH, AT, AA, AB, DEL, PH, PT, CLR, SAFE, SAFER, SMOVE, SMOVER, NKIND };
static const char *names[] = {"add_head", "add_tail", "add_after", "add_before",
			      "del", "pop_head", "pop_tail", "clear",
			      "foreach_safe+del", "foreach_safe_r+del",
			      "foreach_safe+move", "foreach_safe_r+move"};

static bool apply(int op)
{
	int k = op / 128, l = op / 64 % 2, a = op / 8 % 8, b = op % 8, i, r;
	struct sc_list *n, *e;

	switch (k) {
	case AH:
	case AT:
		if (b || a >= ne)
			return false;
		if (k == AH)
			sc_list_add_head(&li[l], &it[a].l);
		else
			sc_list_add_tail(&li[l], &it[a].l);
		mdel(a);
		mins(l, k == AH ? 0 : m.n[l], a);
		return true;
	case AA:
	case AB:
		/* b = ref position's element, a = moved element; 7: the list itself */
		if (b == 7 && a < ne) {
			if (k == AA)
				sc_list_add_after(&li[l], &li[l], &it[a].l);
			else
				sc_list_add_before(&li[l], &li[l], &it[a].l);
			mdel(a);
			mins(l, k == AA ? 0 : m.n[l], a);
			return true;
		}
		if (a >= ne || b >= ne || a == b || mfind(l, b) < 0)
			return false;
		if (k == AA)
			sc_list_add_after(&li[l], &it[b].l, &it[a].l);
		else
			sc_list_add_before(&li[l], &it[b].l, &it[a].l);
		mdel(a);
		i = mfind(l, b);
		mins(l, k == AA ? i + 1 : i, a);
		return true;
	case DEL:
		if (b || a >= ne || (l && mfind(1, a) < 0) ||
		    (!l && mfind(1, a) >= 0))
			return false;
		sc_list_del(&li[l], &it[a].l);
		mdel(a);
		return true;
	case PH:
	case PT:
		if (a || b)
			return false;
		r = idx(k == PH ? sc_list_pop_head(&li[l]) :
				  sc_list_pop_tail(&li[l]));
		if (!m.n[l]) {
			MC_CHECK(r == -1, "pop-empty", "pop of an empty list "
						       "returned an element");
			return true;
		}
		i = k == PH ? m.v[l][0] : m.v[l][m.n[l] - 1];
		MC_CHECK(r == i, "pop", "%s returned element %d, expected %d",
			 names[k], r, i);
		mdel(i);
		return true;
	case CLR:
		if (a || b)
			return false;
		sc_list_clear(&li[l]);
		m.n[l] = 0;
		memset(m.v[l], 0, MAXE);
		return true;
	case SAFE:
	case SAFER:
	case SMOVE:
	case SMOVER: {
		int c = 0, cnt = m.n[l], mask = a * 8 + b;
		uint8_t v[MAXE];

		/* the mask selects which visited elements get deleted */
		if (mask >= 1 << ne || !mask)
			return false;
		memcpy(v, m.v[l], MAXE);
		if (k == SAFE || k == SMOVE) {
			sc_list_foreach_safe (&li[l], n, e) {
				int x = idx(e);
				MC_CHECK(c < cnt && x == v[c], "safe",
					 "foreach_safe visit %d", c);
				c++;
				if (mask >> x & 1) {
					if (k >= SMOVE)
						sc_list_add_tail(&li[!l], e);
					else
						sc_list_del(&li[l], e);
				}
			}
		} else {
			sc_list_foreach_safe_r (&li[l], n, e) {
				int x = idx(e);
				MC_CHECK(c < cnt && x == v[cnt - 1 - c], "safe",
					 "foreach_safe_r visit %d", c);
				c++;
				if (mask >> x & 1) {
					if (k >= SMOVE)
						sc_list_add_tail(&li[!l], e);
					else
						sc_list_del(&li[l], e);
				}
			}
		}
		MC_CHECK(c == cnt, "safe", "%s visited %d of %d", names[k], c,
			 cnt);
		for (c = 0; c < cnt; c++) {
			int x = v[k == SAFE || k == SMOVE ? c : cnt - 1 - c];
			if (mask >> x & 1) {
				mdel(x);
				if (k >= SMOVE)
					mins(!l, m.n[!l], x);
			}
		}
		return true;
	}
	default:
		return false;
	}
}

static void check(void)
{
	for (int l = 0; l < NL; l++) {
		struct sc_list *e;
		int c = 0;

		MC_CHECK(sc_list_count(&li[l]) == m.n[l], "count",
			 "list %d: count %zu, expected %d", l,
			 sc_list_count(&li[l]), m.n[l]);
		MC_CHECK(sc_list_is_empty(&li[l]) == (m.n[l] == 0), "is_empty",
			 "list %d: is_empty", l);
		MC_CHECK(idx(sc_list_head(&li[l])) ==
				 (m.n[l] ? m.v[l][0] : -1),
			 "head", "list %d: head", l);
		MC_CHECK(idx(sc_list_tail(&li[l])) ==
				 (m.n[l] ? m.v[l][m.n[l] - 1] : -1),
			 "tail", "list %d: tail", l);
		sc_list_foreach (&li[l], e) {
			MC_CHECK(c < m.n[l] && idx(e) == m.v[l][c], "foreach",
				 "list %d: visit %d", l, c);
			c++;
		}
		MC_CHECK(c == m.n[l], "foreach", "list %d: visited %d", l, c);
		c = 0;
		sc_list_foreach_r (&li[l], e) {
			MC_CHECK(c < m.n[l] &&
					 idx(e) == m.v[l][m.n[l] - 1 - c],
				 "foreach_r", "list %d: visit %d", l, c);
			c++;
		}
		MC_CHECK(c == m.n[l], "foreach_r", "list %d: visited %d", l,
			 c);
	}
	for (int i = 0; i < MAXE; i++)
		MC_CHECK(it[i].tag == 0x5c && it[i].after == 0x5c5c5c5c,
			 "stray", "a neighbouring field was overwritten");
	/* an element outside every list can be deleted without effect */
	for (int e = 0; e < ne; e++)
		if (mfind(0, e) < 0 && mfind(1, e) < 0) {
			sc_list_del(&li[0], &it[e].l);
			sc_list_del(NULL, &it[e].l);
		}
	for (int l = 0; l < NL; l++)
		MC_CHECK(sc_list_count(&li[l]) == m.n[l], "del-outside",
			 "deleting an element of no list changed list %d", l);
}

static void opname(int op, char *b, size_t n)
{
	snprintf(b, n, "%s(list %d, %d, %d)", names[op / 128], op / 64 % 2,
		 op / 8 % 8, op % 8);
}

/* many elements; loops in loops, break and continue */
static void large(void)
{
	static struct item x[70003];
	const int n = sizeof(x) / sizeof(*x);
	struct sc_list *e, *f, *tmp;
	int c = 0, d = 0;

	if (!mc_mine("large list"))
		return;
	memset(x, 0x5c, sizeof(x));
	sc_list_init(&li[0]);
	sc_list_init(&li[1]);
	for (int i = 0; i < n; i++)
		sc_list_init(&x[i].l);
	for (int i = 0; i < n; i++) {
		if (i & 1)
			sc_list_add_head(&li[0], &x[i].l);
		else
			sc_list_add_tail(&li[0], &x[i].l);
		if (i < 600 || i > n - 40 || i % 64 < 2)
			MC_CHECK(sc_list_count(&li[0]) == (size_t) i + 1, "count", "count with %d elements", i + 1);
		mc_tick();
	}
	mc_evals++;
#define POS(k) ((k) < n / 2 ? n - 2 - 2 * (k) : 2 * ((k) - n / 2))
	sc_list_foreach (&li[0], e) {
		MC_CHECK(e == &x[POS(c)].l, "large", "element %d", c);
		if (++c % 20000)
			continue;
		sc_list_foreach_r (&li[0], f) {
			if (f == &x[POS(n - 100)].l)
				break;
			d++;
		}
		sc_list_foreach (&li[0], f)
			if (f == &x[POS(10)].l)
				break;
	}
	MC_CHECK(c == n && d == 99 * (n / 20000), "large", "%d and %d visits", c, d);
	c = n;
	sc_list_foreach_r (&li[0], e) {
		c--;
		MC_CHECK(e == &x[POS(c)].l, "large", "element %d", c);
	}
	MC_CHECK(c == 0, "large", "%d elements missing", c);
	/* every third element to the other list */
	sc_list_foreach_safe (&li[0], tmp, e)
		if (c++ % 3 == 1)
			sc_list_add_tail(&li[1], e);
	MC_CHECK(c == n, "large", "%d visits", c);
	MC_CHECK(sc_list_count(&li[1]) == (size_t) (n + 1) / 3 && sc_list_count(&li[0]) == (size_t) n - (n + 1) / 3,
		 "count", "counts after moving");
	for (c = 0; (e = c & 1 ? sc_list_pop_tail(&li[1]) : sc_list_pop_head(&li[1])); c++) {
		int k = c & 1 ? (n + 1) / 3 - 1 - c / 2 : c / 2;
		MC_CHECK(e == &x[POS(3 * k + 1)].l, "pop", "element %d", c);
	}
	MC_CHECK(c == (n + 1) / 3, "pop", "%d elements", c);
	sc_list_clear(&li[0]);
	MC_CHECK(sc_list_count(&li[0]) == 0 && sc_list_is_empty(&li[0]) && !sc_list_head(&li[0]) && !sc_list_tail(&li[0]),
		 "clear", "not empty");
	for (int i = 0; i < n; i++) {
		sc_list_del(NULL, &x[i].l);
		MC_CHECK(x[i].tag == 0x5c && x[i].after == 0x5c5c5c5c,
			 "clear", "element %d", i);
	}
}

int main(int argc, char **argv)
{
	static struct mc_sys s;

	mc_init(argc, argv);
	large();
	for (int e = 1; e <= (mc_thorough ? 6 : 5); e++) {
		if (!mc_mine("lists=2 elements=%d", e))
			continue;
		ne = e;
		memset(&s, 0, sizeof(s));
		s.init = sys_init;
		s.apply = apply;
		s.check = check;
		s.opname = opname;
		s.nops = NKIND * 128;
		s.max_depth = 100000;
		s.max_states = 5000000;
		mc_regions_clear();
		mc_region(it, sizeof(it));
		mc_region(li, sizeof(li));
		mc_region(&m, sizeof(m));
		mc_bfs(&s);
	}
	return mc_done();
}
