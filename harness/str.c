/* C12: strings against plain byte strings, each allocation failing.
 * C13 (TOK): tokenization over all small strings. */
#include "mc.h"
#include "sc_str.h"

#include <errno.h>
#include <stdarg.h>
#include <string.h>

#ifndef TOK
#define MAXL 2100
static int fmt_calls, fmt_fail; /* the formatter itself can fail */
int mc_vsnprintf(char *b, size_t n, const char *f, va_list va)
{
	if (++fmt_calls == fmt_fail) {
		errno = EILSEQ;
		return -1;
	}
	return vsnprintf(b, n, f, va);
}
static char *obj;
static struct {
	int32_t len; /* -1: NULL */
	char s[40];
} m;
static int max_len;

static bool mset(const char *s, size_t n)
{
	memset(&m, 0, sizeof(m));
	m.len = (int32_t) n;
	memcpy(m.s, s, n);
	return true;
}

static void same(const char *o, const char *s, int64_t n)
{
	MC_CHECK(o != NULL, "null", "the string is NULL, expected %lld bytes",
		 (long long) n);
	MC_CHECK(sc_str_len(o) == n, "len", "length is %lld, expected %lld",
		 (long long) sc_str_len(o), (long long) n);
	MC_CHECK(!memcmp(o, s, (size_t) n), "content",
		 "content is '%.40s', expected '%.*s'", o, (int) n, s);
	MC_CHECK(o[n] == 0, "termination", "not terminated");
}

static void ok_or_oom(bool r, const char *what)
{
	if (!r)
		MC_CHECK(mc_alloc_failed, "oom-spurious",
			 "%s failed although no allocation failed", what);
	else
		MC_CHECK(!mc_alloc_failed, "oom-hidden",
			 "%s succeeded although an allocation failed", what);
}

static void sys_init(void)
{
	obj = NULL;
	memset(&m, 0, sizeof(m));
	m.len = -1;
}

static const char *lit[] = {"", "a", "b", "ab", " a", "a ", "aab", " "};
#define NLIT 8
static const char *pat[] = {"", "a", "b", "ab", "aa", "aba", " "};
#define NPAT 7
static const char *wit[] = {"", "b", "ba", "a", "aba", "abab"};
#define NWIT 6
static const char *trims[] = {"", " ", "a", " a", "ab", "b"};
#define NTRIM 6
#define NSUB 16 /* (start, end) 0..3 plus far ones */

#define NSELF 10
static int model_replace(char *d, const char *s, int n, const char *p,
			 const char *w)
{
	int pn = (int) strlen(p), wn = (int) strlen(w), k = 0;

	for (int i = 0; i < n;) {
		if (pn && i + pn <= n && !memcmp(s + i, p, (size_t) pn)) {
			memcpy(d + k, w, (size_t) wn);
			k += wn;
			i += pn;
		} else {
			d[k++] = s[i++];
		}
	}
	return k;
}

static bool apply(int op)
{
	char b[4096];
	int n;
	bool r;

	if (op < NLIT) { /* set */
		r = sc_str_set(&obj, lit[op]);
		ok_or_oom(r, "set");
		return r ? mset(lit[op], strlen(lit[op])) : true;
	}
	op -= NLIT;
	if (op < NLIT) { /* append */
		n = (int) strlen(lit[op]);
		if (m.len + n > max_len)
			return false;
		r = sc_str_append(&obj, lit[op]);
		ok_or_oom(r, "append");
		if (r) {
			if (m.len < 0)
				m.len = 0;
			memcpy(b, m.s, (size_t) m.len);
			memcpy(b + m.len, lit[op], (size_t) n);
			mset(b, (size_t) (m.len + n));
		}
		return true;
	}
	op -= NLIT;
	if (op < NLIT) { /* append_fmt */
		n = (int) strlen(lit[op]) + 1;
		if (m.len + n > max_len)
			return false;
		r = sc_str_append_fmt(&obj, "%s%c", lit[op], 'b');
		ok_or_oom(r, "append_fmt");
		if (r) {
			if (m.len < 0)
				m.len = 0;
			memcpy(b, m.s, (size_t) m.len);
			memcpy(b + m.len, lit[op], (size_t) n - 1);
			b[m.len + n - 1] = 'b';
			mset(b, (size_t) (m.len + n));
		}
		return true;
	}
	op -= NLIT;
	if (op < NPAT * NWIT) {
		const char *p = pat[op / NWIT], *w = wit[op % NWIT];
		n = m.len < 0 ? -1 : model_replace(b, m.s, m.len, p, w);
		if (n > max_len)
			return false;
		r = sc_str_replace(&obj, p, w);
		ok_or_oom(r, "replace");
		if (r && n >= 0)
			mset(b, (size_t) n);
		return true;
	}
	op -= NPAT * NWIT;
	if (op < NTRIM) {
		int s = 0, e = m.len;
		r = sc_str_trim(&obj, trims[op]);
		ok_or_oom(r, "trim");
		if (r && m.len >= 0) {
			while (s < e && strchr(trims[op], m.s[s]))
				s++;
			while (e > s && strchr(trims[op], m.s[e - 1]))
				e--;
			memcpy(b, m.s + s, (size_t) (e - s));
			mset(b, (size_t) (e - s));
		}
		return true;
	}
	op -= NTRIM;
	if (op < 25) {
		static const uint32_t at[] = {0, 1, 2, 5, UINT32_MAX};
		uint32_t s = at[op / 5], e = at[op % 5];
		bool in = m.len >= 0 && s <= e && e <= (uint32_t) m.len;
		r = sc_str_substring(&obj, s, e);
		if (!in) {
			MC_CHECK(!r, "range", "substring(%u,%u) of %d bytes "
				 "succeeded", s, e, m.len);
			return true;
		}
		ok_or_oom(r, "substring");
		if (r) {
			memcpy(b, m.s + s, e - s);
			mset(b, e - s);
		}
		return true;
	}
	op -= 25;
	switch (op) {
	case 0: { /* replace by a duplicate */
		char *d = sc_str_dup(obj);
		if (m.len < 0) {
			MC_CHECK(!d, "dup", "dup(NULL) is not NULL");
			return true;
		}
		ok_or_oom(d != NULL, "dup");
		if (!d)
			return true;
		MC_CHECK(d != obj, "dup", "dup returned the string itself");
		MC_CHECK(sc_str_cmp(d, obj), "cmp", "duplicate differs");
		sc_str_destroy(&obj);
		MC_CHECK(obj == NULL, "destroy", "pointer not cleared");
		obj = d;
		return true;
	}
	case 1:
		sc_str_destroy(&obj);
		MC_CHECK(obj == NULL, "destroy", "pointer not cleared");
		MC_CHECK(!mc_live_blocks(), "leak", "leak after destroy");
		m.len = -1;
		memset(m.s, 0, sizeof(m.s));
		return true;
	case 2: /* format that refers to the string itself */
		if (m.len < 0 || 2 * m.len + 1 > max_len)
			return false;
		r = sc_str_set_fmt(&obj, "%s-%s", obj, obj);
		ok_or_oom(r, "set_fmt");
		if (r) {
			memcpy(b, m.s, (size_t) m.len);
			b[m.len] = '-';
			memcpy(b + m.len + 1, m.s, (size_t) m.len);
			mset(b, (size_t) (2 * m.len + 1));
		}
		return true;
	case 3: /* set to itself */
		if (m.len < 0)
			return false;
		r = sc_str_set(&obj, obj);
		ok_or_oom(r, "set");
		return true;
	case 4:
		r = sc_str_set(&obj, NULL);
		MC_CHECK(!r, "set-null", "set(NULL) returned true");
		return true;
	case 5: { /* create forms */
		char *c = sc_str_create("xyz"), *d = sc_str_create_len("xyz", 2),
		     *f = sc_str_create_fmt("%d:%s", -12, "q");
		MC_CHECK((c && d && f) == !mc_alloc_failed, "oom-spurious",
			 "create failed or hid a failure");
		if (c)
			same(c, "xyz", 3);
		if (d)
			same(d, "xy", 2);
		if (f)
			same(f, "-12:q", 5);
		MC_CHECK(!sc_str_create(NULL) && !sc_str_create_len(NULL, 3),
			 "create-null", "create(NULL) is not NULL");
		if (c && d)
			MC_CHECK(!sc_str_cmp(c, d), "cmp", "xyz == xy");
		sc_str_destroy(&c);
		sc_str_destroy(&d);
		sc_str_destroy(&f);
		return true;
	}
	}
	op -= 6;
	/* arguments that are (the end of) the string itself */
	if (m.len < (op / NSELF ? op / NSELF : 1))
		return false;
	n = m.len - op / NSELF;
	char *arg = obj + op / NSELF, text[128];
	const char *rp = NULL, *rw = NULL;
	memcpy(text, m.s + op / NSELF, (size_t) n);
	text[n] = 0;
	switch (op % NSELF) {
	case 0:
		r = sc_str_set(&obj, arg);
		ok_or_oom(r, "set");
		return r ? mset(text, (size_t) n) : true;
	case 1:
		if (m.len + n > max_len)
			return false;
		r = sc_str_append(&obj, arg);
		ok_or_oom(r, "append");
		if (r) {
			memcpy(b, m.s, (size_t) m.len);
			memcpy(b + m.len, text, (size_t) n);
			mset(b, (size_t) (m.len + n));
		}
		return true;
	case 2:
		r = sc_str_trim(&obj, arg);
		ok_or_oom(r, "trim");
		if (r) {
			int s = 0, e = m.len;
			while (s < e && strchr(text, m.s[s]))
				s++;
			while (e > s && strchr(text, m.s[e - 1]))
				e--;
			memcpy(b, m.s + s, (size_t) (e - s));
			mset(b, (size_t) (e - s));
		}
		return true;
	case 3: rp = arg, rw = "b"; break;
	case 4: rp = arg, rw = "aba"; break;
	case 5: rp = "a", rw = arg; break;
	case 6: rp = "ab", rw = arg; break;
	case 7: rp = "aa", rw = arg; break;
	case 8: rp = arg, rw = obj; break;
	default: rp = arg, rw = arg; break;
	}
	char p[128], w[128];
	strcpy(p, rp);
	strcpy(w, rw);
	n = model_replace(b, m.s, m.len, p, w);
	if (n > max_len)
		return false;
	r = sc_str_replace(&obj, rp, rw);
	ok_or_oom(r, "replace");
	return r ? mset(b, (size_t) n) : true;
}
#define NOPS (NLIT * 3 + NPAT * NWIT + NTRIM + 25 + 6 + 3 * NSELF)

static void check(void)
{
	char *o;

	if (m.len < 0) {
		MC_CHECK(obj == NULL && sc_str_len(obj) == -1, "null",
			 "expected NULL");
		return;
	}
	same(obj, m.s, m.len);
	MC_CHECK(mc_live_blocks() == 1, "leak", "%d blocks for one string",
		 mc_live_blocks());
	mc_alloc_reset(0);
	o = sc_str_create_len(m.s, (uint32_t) m.len);
	MC_CHECK(sc_str_cmp(o, obj) && sc_str_cmp(obj, o), "cmp",
		 "equal strings compare unequal");
	if (m.len) {
		o[m.len - 1]++;
		MC_CHECK(!sc_str_cmp(o, obj), "cmp", "last byte ignored");
		o[m.len - 1]--;
		o[0]++;
		MC_CHECK(!sc_str_cmp(o, obj), "cmp", "first byte ignored");
	}
	sc_str_append(&o, "c");
	MC_CHECK(!sc_str_cmp(o, obj) && !sc_str_cmp(obj, o), "cmp",
		 "prefix compares equal");
	sc_str_destroy(&o);
}

static void term(void)
{
	sc_str_destroy(&obj);
	sc_str_destroy(&obj);
}

static void opname(int op, char *b, size_t n)
{
	static const char *o[] = {"dup+destroy", "destroy", "set_fmt(self)",
				  "set(self)", "set(NULL)", "create forms"};
	if (op < NLIT * 3) {
		static const char *w[] = {"set", "append", "append_fmt"};
		snprintf(b, n, "%s('%s')", w[op / NLIT], lit[op % NLIT]);
		return;
	}
	op -= NLIT * 3;
	if (op < NPAT * NWIT) {
		snprintf(b, n, "replace('%s','%s')", pat[op / NWIT],
			 wit[op % NWIT]);
		return;
	}
	op -= NPAT * NWIT;
	if (op < NTRIM) {
		snprintf(b, n, "trim('%s')", trims[op]);
		return;
	}
	op -= NTRIM;
	if (op < 25) {
		static const char *at[] = {"0", "1", "2", "5", "max"};
		snprintf(b, n, "substring(%s,%s)", at[op / 5], at[op % 5]);
		return;
	}
	op -= 25;
	static const char *sf[] = {"set(X)", "append(X)", "trim(X)", "replace(X,'b')", "replace(X,'aba')",
		"replace('a',X)", "replace('ab',X)", "replace('aa',X)", "replace(X,self)", "replace(X,X)"};
	if (op < 6)
		snprintf(b, n, "%s", o[op]);
	else
		snprintf(b, n, "%s, X is the string from %d", sf[(op - 6) % NSELF], (op - 6) / NSELF);
}

/* every string x pattern x replacement over {a,b}, and trims over {a,b,c} */
static int pick_str(char *d, int maxn, int alpha)
{
	int n = mc_choose(maxn + 1);
	for (int i = 0; i < n; i++)
		d[i] = (char) ('a' + mc_choose(alpha));
	d[n] = 0;
	return n;
}
static int rep_len;
static void rep_run(void)
{
	char s[32], p[8], w[8], e[128];
	int n, k, f;
	char *o;
	bool r;

	mc_heap_reset();
	n = pick_str(s, rep_len, 2);
	pick_str(p, 3, 2);
	pick_str(w, 3, 2);
	f = mc_choose(2);
	k = model_replace(e, s, n, p, w);
	mc_alloc_reset(0);
	mc_note("replace '%s' by '%s' in '%s'%s\n", p, w, s, f ? ", no memory" : "");
	o = sc_str_create(s);
	mc_alloc_reset(f);
	r = sc_str_replace(&o, p, w);
	ok_or_oom(r, "replace");
	if (r)
		same(o, e, k);
	else
		same(o, s, n);
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(e, (size_t) k);
}
static void trim_run(void)
{
	char s[32], l[8];
	int n, f, a, z;
	char *o;
	bool r;

	mc_heap_reset();
	n = pick_str(s, rep_len, 3);
	pick_str(l, 2, 3);
	f = mc_choose(2);
	mc_note("trim '%s' from '%s'%s\n", l, s, f ? ", no memory" : "");
	o = sc_str_create(s);
	mc_alloc_reset(f);
	r = sc_str_trim(&o, l);
	ok_or_oom(r, "trim");
	for (a = 0; a < n && strchr(l, s[a]);)
		a++;
	for (z = n; z > a && strchr(l, s[z - 1]);)
		z--;
	if (r)
		same(o, s + a, z - a);
	else
		same(o, s, n);
	for (uint32_t i = 0; r && i <= (uint32_t) (z - a) + 1; i++)
		for (uint32_t j = 0; j <= (uint32_t) (z - a) + 1; j++) {
			char *d;
			bool in = i <= j && j <= (uint32_t) (z - a);
			mc_alloc_reset(0);
			d = sc_str_dup(o);
			MC_CHECK(sc_str_substring(&d, i, j) == in, "range",
				 "substring(%u,%u) of '%s'", i, j, o);
			if (in)
				same(d, s + a + i, (int64_t) j - i);
			else
				same(d, s + a, z - a);
			sc_str_destroy(&d);
		}
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(s + a, (size_t) (z - a));
}

static char *via_list(const char *fmt, ...)
{
	char *r;
	va_list va;

	va_start(va, fmt);
	r = sc_str_create_va(fmt, va);
	va_end(va);
	return r;
}

/* formatted strings around the size of the internal buffer */
static void fmt_run(void)
{
	static const int ln[] = {0,    1,    2,	   500,	 1021, 1022, 1023,
				 1024, 1025, 1026, 2047, 2048, 4000, 9000};
	static char s[9100], e[20000];
	int n = ln[mc_choose(14)], n2 = ln[mc_choose(12)], f = mc_choose(3);
	char *o = NULL;
	bool r;

	mc_heap_reset();
	for (int i = 0; i < n; i++)
		s[i] = (char) ('a' + i % 23);
	s[n] = 0;
	mc_note("create_fmt of %d bytes, append_fmt of %d, failing %d\n", n, n2,
		f);
	mc_alloc_reset(f == 1);
	o = n2 % 2 ? via_list("%s%d", s, 7) : sc_str_create_fmt("%s%d", s, 7);
	ok_or_oom(o != NULL, "create_fmt");
	if (!o)
		return;
	memcpy(e, s, (size_t) n);
	e[n] = '7';
	same(o, e, n + 1);
	s[n2 < n ? n2 : n] = 0;
	n2 = n2 < n ? n2 : n;
	mc_alloc_reset(f == 2);
	r = sc_str_append_fmt(&o, "%s", s);
	ok_or_oom(r, "append_fmt");
	if (!r) {
		same(o, e, n + 1);
		sc_str_destroy(&o);
		return;
	}
	memcpy(e + n + 1, s, (size_t) n2);
	same(o, e, n + 1 + n2);
	mc_distinct_add(e, (size_t) (n + 1 + n2));
	r = sc_str_set_fmt(&o, "%s", s);
	MC_CHECK(r, "oom-spurious", "set_fmt failed");
	same(o, s, n2);
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}

/* binary content */
static void bin_run(void)
{
	char s[8], t[8], e[20];
	int n = mc_choose(5), k;
	char *o, *d;

	mc_heap_reset();
	for (int i = 0; i < n; i++)
		s[i] = (char) (mc_choose(3) - 1);
	k = mc_choose(3);
	for (int i = 0; i < k; i++)
		t[i] = 'x';
	t[k] = 0;
	o = sc_str_create_len(s, (uint32_t) n);
	same(o, s, n);
	d = sc_str_dup(o);
	same(d, s, n);
	MC_CHECK(sc_str_cmp(o, d), "cmp", "duplicate differs");
	if (n) {
		d[n - 1] ^= 1;
		MC_CHECK(!sc_str_cmp(o, d), "cmp", "bytes after a zero ignored");
		d[n - 1] ^= 1;
	}
	MC_CHECK(sc_str_append(&d, t), "oom-spurious", "append failed");
	memcpy(e, s, (size_t) n);
	memcpy(e + n, t, (size_t) k);
	same(d, e, n + k);
	MC_CHECK(sc_str_substring(&d, (uint32_t) (n / 2), (uint32_t) n), "range",
		 "substring");
	same(d, s + n / 2, n - n / 2);
	sc_str_destroy(&o);
	sc_str_destroy(&d);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(e, (size_t) (n + k));
}

static void fmterr_run(void)
{
	static const int ln[] = {0, 5, 1023, 1024, 3000};
	static char s[3001];
	int n = ln[mc_choose(5)], op = mc_choose(4);
	char *o = NULL;
	bool r, bad;

	mc_heap_reset();
	memset(s, 'q', sizeof(s));
	s[n] = 0;
	if (op)
		o = sc_str_create("old");
	fmt_calls = 0;
	fmt_fail = 1 + mc_choose(3);
	mc_note("op %d with %d bytes, call %d of vsnprintf fails\n", op, n, fmt_fail);
	mc_alloc_reset(0);
	if (op == 0)
		r = (o = sc_str_create_fmt("%s", s)) != NULL;
	else
		r = op == 1 ? sc_str_set_fmt(&o, "%s", s) : op == 2 ? sc_str_append_fmt(&o, "%s", s) : sc_str_set_fmt(&o, "%s", o);
	bad = fmt_calls >= fmt_fail;
	fmt_fail = 0;
	MC_CHECK(r == !bad, "fmterr", "formatting failed: %d, result %d", bad, r);
	if (op && !r)
		same(o, "old", 3);
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}

/* lengths around the powers of 256 */
static void long_run(void)
{
	static const int ln[] = {254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, 100000, 131071, 131073};
	static char s[140000], e[280000];
	int n = ln[mc_choose(13)], op = mc_choose(11), k, x, y;
	char *o, *d, *save = NULL;
	const char *t;

	/* ASan's strstr() looks at the whole rest of the string each time */
	if (op >= 6 && op <= 8 && n > 512 && n != 65536 + (op == 6))
		return;
	mc_heap_reset();
	mc_big_limit = 1 << 22;
	for (int i = 0; i < n; i++)
		s[i] = (char) ('b' + i % 23);
	s[n] = 0;
	mc_note("op %d on %d bytes\n", op, n);
	mc_tick();
	o = sc_str_create(s);
	same(o, s, n);
	switch (op) {
	case 0:
		d = sc_str_dup(o);
		same(d, s, n);
		MC_CHECK(sc_str_cmp(o, d), "cmp", "duplicate differs");
		d[n - 1]++;
		MC_CHECK(!sc_str_cmp(o, d), "cmp", "last byte ignored");
		sc_str_destroy(&d);
		d = sc_str_create_len(s, (uint32_t) n - 1);
		same(d, s, n - 1);
		MC_CHECK(!sc_str_cmp(o, d), "cmp", "length ignored");
		sc_str_destroy(&d);
		break;
	case 1:
	case 2: /* append to a short and a long one */
		d = sc_str_create(op == 1 ? "x" : s);
		MC_CHECK(sc_str_append(&d, s), "append", "append");
		k = op == 1 ? 1 : n;
		memcpy(e, op == 1 ? "x" : s, (size_t) k);
		memcpy(e + k, s, (size_t) n);
		same(d, e, n + k);
		sc_str_destroy(&d);
		break;
	case 3:
		d = sc_str_create_fmt("%s%d%s", s, 42, s);
		memcpy(e, s, (size_t) n);
		memcpy(e + n, "42", 2);
		memcpy(e + n + 2, s, (size_t) n);
		same(d, e, 2 * n + 2);
		MC_CHECK(sc_str_append_fmt(&o, "%s", "xy"), "append", "append_fmt");
		memcpy(e, s, (size_t) n);
		memcpy(e + n, "xy", 2);
		same(o, e, n + 2);
		sc_str_destroy(&d);
		break;
	case 4: /* trim all but a few, or a few */
		for (x = 0; x < 3; x++) {
			memset(e, ' ', (size_t) n);
			e[n] = 0;
			k = x == 0 ? n / 2 : x == 1 ? n - 1 : 0;
			y = x == 2 ? n : k + 1;
			memset(e + k, 'z', (size_t) (y - k));
			sc_str_set(&o, e);
			MC_CHECK(sc_str_trim(&o, " "), "trim", "trim");
			same(o, e + k, y - k);
		}
		memset(e, ' ', (size_t) n);
		sc_str_set(&o, e);
		MC_CHECK(sc_str_trim(&o, " "), "trim", "trim");
		same(o, "", 0);
		break;
	case 5: { /* substrings */
		const int at[] = {0, 1, 255, 256, 65535, 65536, n - 65536, n - 256, n - 1, n, n + 1};
		for (x = 0; x < 11; x++)
			for (y = 0; y < 11; y++) {
				bool in = at[x] >= 0 && at[x] <= at[y] && at[y] <= n, r;
				if (at[x] < 0 || at[y] < 0)
					continue;
				sc_str_set(&o, s);
				r = sc_str_substring(&o, (uint32_t) at[x], (uint32_t) at[y]);
				MC_CHECK(r == in, "range", "substring(%d,%d) of %d", at[x], at[y], n);
				same(o, r ? s + at[x] : s, r ? at[y] - at[x] : n);
			}
		break;
	}
	case 6: /* many occurrences, growing, shrinking, same size */
	case 7:
	case 8:
		memset(e, 'a', (size_t) n);
		e[n] = 0;
		sc_str_set(&o, e);
		MC_CHECK(sc_str_replace(&o, "a", op == 6 ? "bc" : op == 7 ? "" : "x"), "replace", "replace");
		for (x = 0; x < n; x++)
			if (op == 6)
				memcpy(e + 2 * x, "bc", 2);
			else
				e[x] = 'x';
		same(o, e, op == 6 ? 2 * n : op == 7 ? 0 : n);
		break;
	case 9: /* a long pattern and a long replacement */
		d = sc_str_create_fmt("<%s><%s>", s, s);
		MC_CHECK(sc_str_replace(&d, s, "q"), "replace", "replace");
		same(d, "<q><q>", 6);
		MC_CHECK(sc_str_replace(&d, "q><", s), "replace", "replace");
		e[0] = '<';
		memcpy(e + 1, s, (size_t) n);
		memcpy(e + 1 + n, "q>", 2);
		same(d, e, n + 3);
		sc_str_destroy(&d);
		break;
	default: /* tokens */
		d = sc_str_create_fmt("%s,%s,x", s, s);
		for (x = 0; x < 2; x++) {
			t = sc_str_token_begin(d, &save, ",");
			MC_CHECK(t == d + x * (n + 1) && !strcmp(t, s), "tok", "token %d", x);
		}
		t = sc_str_token_begin(d, &save, ",");
		MC_CHECK(t && !strcmp(t, "x"), "tok", "last token");
		MC_CHECK(!sc_str_token_begin(d, &save, ","), "tok", "end");
		MC_CHECK(sc_str_len(d) == 2 * n + 3 && d[n] == ',' && d[2 * n + 1] == ',', "tok", "restored");
		sc_str_destroy(&d);
	}
	mc_distinct_add(&(int[2]){n, op}, 8);
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_big_limit = 0;
}

#ifdef SC_STR_MAX
/* operations around the length limit; longer results are refused */
static void lim_run(void)
{
	char a[40], b[40], want[80];
	int na = mc_choose(SC_STR_MAX + 3), nb = mc_choose(SC_STR_MAX + 3), op = mc_choose(5), n;
	char *o = NULL;
	bool r;

	mc_heap_reset();
	mc_alloc_reset(0);
	memset(a, 'a', sizeof(a));
	memset(b, 'b', sizeof(b));
	a[na] = b[nb] = 0;
	if (op == 4 && na > 4)
		a[2] = a[4] = 'x'; /* replaced */
	mc_note("op %d, lengths %d and %d\n", op, na, nb);
	o = sc_str_create(a);
	MC_CHECK((o != NULL) == (na <= SC_STR_MAX), "limit", "creation of %d bytes %s", na, o ? "succeeds" : "fails");
	if (!o)
		return;
	same(o, a, na);
	switch (op) {
	case 0:
		r = sc_str_set(&o, b);
		strcpy(want, b);
		break;
	case 1:
		r = sc_str_append(&o, b);
		strcpy(want, a);
		strcat(want, b);
		break;
	case 2:
		sc_str_destroy(&o);
		r = sc_str_append(&o, b);
		strcpy(want, b);
		na = -1;
		break;
	case 3:
		r = sc_str_replace(&o, a, b);
		strcpy(want, na ? b : a);
		break;
	default:
		r = sc_str_replace(&o, "x", b);
		n = 0;
		for (int i = 0; i < na; i++)
			if (a[i] == 'x') {
				memcpy(want + n, b, (size_t) nb);
				n += nb;
			} else
				want[n++] = a[i];
		want[n] = 0;
	}
	n = (int) strlen(want);
	MC_CHECK(r == (n <= SC_STR_MAX), "limit", "a result of %d bytes: returns %d", n, r);
	if (r)
		same(o, want, n);
	else if (na >= 0)
		same(o, a, na);
	else
		MC_CHECK(!o, "limit", "a failed append leaves a string");
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}
#endif

/* every pair of bytes, as text, pattern, replacement and trimmed letter */
static int bc;
static void bytes_run(void)
{
	int d = 1 + mc_choose(255), c = bc, n = 0;
	char s[32], e[64], p[2] = {(char) c, 0}, w[2] = {(char) d, 0}, both[3] = {(char) c, (char) d, 0};
	const char x[] = {(char) d, (char) c, '%', (char) d, (char) c, (char) c, '\\', (char) d, 0};
	char *o;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_note("bytes %d and %d\n", c, d);
	o = sc_str_create(x);
	same(o, x, 8);
	MC_CHECK(sc_str_append(&o, both), "append", "append");
	memcpy(s, x, 8);
	memcpy(s + 8, both, 3);
	same(o, s, 10);
	MC_CHECK(sc_str_append_fmt(&o, "%s", both), "append", "append_fmt");
	memcpy(s + 10, both, 3);
	same(o, s, 12);
	MC_CHECK(sc_str_replace(&o, p, "()"), "replace", "replace");
	for (int i = 0; i < 12; i++)
		if (s[i] == p[0]) {
			e[n++] = '(';
			e[n++] = ')';
		} else {
			e[n++] = s[i];
		}
	same(o, e, n);
	MC_CHECK(sc_str_set(&o, s), "set", "set");
	same(o, s, 12);
	MC_CHECK(sc_str_replace(&o, p, w), "replace", "replace");
	for (int i = 0; i < 12; i++)
		e[i] = s[i] == p[0] ? w[0] : s[i];
	same(o, e, 12);
	MC_CHECK(sc_str_set(&o, s), "set", "set");
	MC_CHECK(sc_str_replace(&o, both, "%s%n&\\1"), "replace", "replace");
	n = 0;
	for (int i = 0; i < 12; i++)
		if (i < 11 && s[i] == p[0] && s[i + 1] == w[0]) {
			memcpy(e + n, "%s%n&\\1", 7);
			n += 7;
			i++;
		} else {
			e[n++] = s[i];
		}
	same(o, e, n);
	for (int f = 0; f < 2; f++) { /* trim one of them, both */
		int a = 0, z = 12;
		const char *list = f ? both : p;
		MC_CHECK(sc_str_set(&o, s), "set", "set");
		MC_CHECK(sc_str_trim(&o, list), "trim", "trim");
		while (a < z && strchr(list, s[a]))
			a++;
		while (a < z && strchr(list, s[z - 1]))
			z--;
		same(o, s + a, z - a);
	}
	sc_str_set(&o, p);
	{
		char *q = sc_str_create(w);
		MC_CHECK(sc_str_cmp(o, q) == (c == d), "cmp", "'%s' and '%s' compare %s", p, w, c == d ? "different" : "equal");
		sc_str_destroy(&q);
	}
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(both, 2);
}

int main(int argc, char **argv)
{
	static struct mc_sys s;

	mc_init(argc, argv);
#ifdef SC_STR_MAX
	if (mc_mine("limit"))
		mc_dfs(lim_run, 0, UINT64_MAX);
	return mc_done();
#endif
	for (int l = 2; l <= (mc_thorough ? 9 : 7); l++) {
		if (!mc_mine("str max=%d", l))
			continue;
		max_len = l;
		memset(&s, 0, sizeof(s));
		s.init = sys_init;
		s.apply = apply;
		s.check = check;
		s.term = term;
		s.opname = opname;
		s.nops = NOPS;
		s.faults = true;
		s.max_depth = 1000;
		s.max_states = mc_thorough ? 200000 : 20000;
		mc_regions_clear();
		mc_region(&obj, sizeof(obj));
		mc_region(&m, sizeof(m));
		mc_bfs(&s);
	}
	rep_len = mc_thorough ? 11 : 8;
	if (mc_mine("str replace len=%d", rep_len))
		mc_dfs(rep_run, 0, UINT64_MAX);
	rep_len = mc_thorough ? 9 : 6;
	if (mc_mine("str trim len=%d", rep_len))
		mc_dfs(trim_run, 0, UINT64_MAX);
	for (bc = 1; bc < 256; bc++)
		if (mc_mine("str byte %d", bc))
			mc_dfs(bytes_run, 0, UINT64_MAX);
	if (mc_mine("str fmt"))
		mc_dfs(fmt_run, 0, UINT64_MAX);
	if (mc_mine("str binary"))
		mc_dfs(bin_run, 0, UINT64_MAX);
	if (mc_mine("str formatter fails"))
		mc_dfs(fmterr_run, 0, UINT64_MAX);
	if (mc_mine("str long"))
		mc_dfs(long_run, 0, UINT64_MAX);
	return mc_done();
}
#else
static int max_len, dmode;
static const char *delims[] = {",", ",;", "", "a", ";a", ";"};
static const char *alpha = ",;ab";

static void run(void)
{
	char s[16], e[16];
	int n = max_len, k, pos = 0, cnt = 0, stop, how, done = 0;
	const char *dl = delims[mc_choose(6)], *t;
	char *o, *save = NULL, *base;

	mc_heap_reset();
	mc_note_reset();
	for (int i = 0; i < n; i++)
		s[i] = alpha[mc_choose(4)];
	s[n] = 0;
	stop = mc_choose(n + 3); /* tokens to take before stopping */
	how = mc_choose(3);
	mc_note("string '%s', first delimiter '%s', stop after %d tokens\n", s,
		dl, stop);
	o = sc_str_create(s);
	base = o;
	while (cnt < stop) {
		if (dmode && cnt) /* another delimiter set for each token */
			dl = delims[mc_choose(3)];
		t = sc_str_token_begin(o, &save, dl);
		MC_CHECK(sc_str_len(o) == n, "tok-len",
			 "length changed during tokenization");
		if (done) {
			MC_CHECK(!t, "tok-end", "token after the last one");
			break;
		}
		MC_CHECK(t, "tok-missing", "token %d is missing", cnt);
		k = (int) strcspn(s + pos, dl);
		memcpy(e, s + pos, (size_t) k);
		e[k] = 0;
		MC_CHECK(!strcmp(t, e), "tok", "token %d is '%s', expected "
			 "'%s'", cnt, t, e);
		MC_CHECK(t == base + pos, "tok", "token %d is a copy", cnt);
		pos += k;
		if (s[pos] == 0)
			done = 1;
		else
			pos++;
		cnt++;
	}
	if (cnt == stop && done && how == 2) {
		t = sc_str_token_begin(o, &save, dl);
		MC_CHECK(!t, "tok-end", "token after the last one");
		MC_CHECK(!strcmp(o, s), "tok-restore",
			 "after the last token the string is '%s', it was '%s'",
			 o, s);
	}
	sc_str_token_end(o, &save);
	MC_CHECK(o == base && !memcmp(o, s, (size_t) n + 1) &&
			 sc_str_len(o) == n,
		 "tok-restore", "after token_end the string is '%s', it was "
		 "'%s'", o, s);
	if (how == 1) {
		sc_str_token_end(o, &save);
		MC_CHECK(!memcmp(o, s, (size_t) n + 1), "tok-restore",
			 "a second token_end changed the string");
	}
	/* a new tokenization works */
	save = NULL;
	for (cnt = 0; sc_str_token_begin(o, &save, ","); cnt++)
		;
	k = 1;
	for (int i = 0; i < n; i++)
		k += s[i] == ',';
	MC_CHECK(cnt == k && !memcmp(o, s, (size_t) n + 1), "tok-restore",
		 "a second tokenization found %d tokens instead of %d", cnt, k);
	mc_distinct_add(s, (size_t) n + 1);
	sc_str_destroy(&o);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	MC_CHECK(!sc_str_token_begin(NULL, &save, ","), "tok-null", "NULL");
	sc_str_token_end(NULL, &save);
}

/* every pair of bytes as delimiters or text; two strings at the same time */
static int bc;
static void bytes_run(void)
{
	int d = 1 + mc_choose(255), c = bc, pos = 0, pos2 = 0;
	bool other = mc_choose(2), end = false, end2 = false;
	char dl[3] = {(char) c, other ? 0 : (char) d, 0}, e[16];
	const char s[] = {'a', (char) c, 'b', (char) d, (char) d, (char) c, 'x', (char) d, 0};
	const char s2[] = {(char) d, 'q', (char) c, 'r', 0};
	char *o, *o2, *save = NULL, *save2 = NULL;

	mc_heap_reset();
	mc_note_reset();
	mc_note("bytes %d and %d, %d of them delimit\n", c, d, other ? 1 : 2);
	o = sc_str_create(s);
	o2 = sc_str_create(s2);
	for (int i = 0; i < 10; i++) {
		const char *t = sc_str_token_begin(o, &save, dl);
		size_t k = end ? 0 : strcspn(s + pos, dl);
		if (end) {
			MC_CHECK(!t, "tok-end", "token after the last one");
		} else {
			memcpy(e, s + pos, k);
			e[k] = 0;
			MC_CHECK(t == o + pos && !strcmp(t, e), "tok", "token %d", i);
			end = !s[pos + (int) k];
			pos += (int) k + 1;
		}
		t = sc_str_token_begin(o2, &save2, dl);
		if (end2) {
			MC_CHECK(!t, "tok-end", "token after the last one");
			continue;
		}
		k = strcspn(s2 + pos2, dl);
		memcpy(e, s2 + pos2, k);
		e[k] = 0;
		MC_CHECK(t == o2 + pos2 && !strcmp(t, e), "tok", "token %d of the other", i);
		end2 = !s2[pos2 + (int) k];
		pos2 += (int) k + 1;
	}
	MC_CHECK(!strcmp(o, s) && !strcmp(o2, s2), "tok-restore", "the strings have changed");
	sc_str_destroy(&o);
	sc_str_destroy(&o2);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(dl, 3);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	for (dmode = 0; dmode < 2; dmode++)
		for (int n = 0; n <= (mc_thorough ? 8 : 6) - dmode; n++)
			if (mc_mine("tokens length=%d mixed delimiters=%d", n,
				    dmode)) {
				max_len = n;
				mc_dfs(run, 0, UINT64_MAX);
			}
	for (bc = 1; bc < 256; bc++)
		if (mc_mine("tokens byte %d", bc))
			mc_dfs(bytes_run, 0, UINT64_MAX);
	return mc_done();
}
#endif
