/* C15: every small ini text, as string and as file, against a reference. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_ini.h"

#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>

#define MAXITEM 64
#define MAXT 8192
struct item {
	int line;
	char section[300], key[300];
	char value[2100];
};
static struct item exp_[MAXITEM], got[MAXITEM];
static int nexp, ngot, stop_at, exp_rc;
static int stop_rv = -1; /* what the callback returns then */

static bool sp(char c)
{
	return c == ' ' || (c >= 9 && c <= 13);
}

static void strip(const char **s, int *n)
{
	while (*n && sp(**s))
		(*s)++, (*n)--;
	while (*n && sp((*s)[*n - 1]))
		(*n)--;
}

static int emit(int line, const char *sec, const char *k, int kn, const char *v,
		int vn)
{
	struct item *i = &exp_[nexp];

	i->line = line;
	strcpy(i->section, sec);
	memcpy(i->key, k, (size_t) kn);
	i->key[kn] = 0;
	memcpy(i->value, v, (size_t) vn);
	i->value[vn] = 0;
	nexp++;
	return nexp == stop_at ? 1 : 0;
}

/* reference: returns 0 or the line number of the error or of the stop */
static int reference(const char *t, int len)
{
	char section[300] = "", key[300] = "";
	int line = 0, pos = 0;

	nexp = 0;
	while (pos < len) {
		const char *s = t + pos;
		int n = 0, k, indent;

		while (pos + n < len && s[n] != '\n')
			n++;
		pos += n + 1;
		line++;
		if (line == 1 && n >= 3 && !memcmp(s, "\xEF\xBB\xBF", 3))
			s += 3, n -= 3;
		/* a comment starts the line or follows a space */
		for (k = 0; k < n; k++)
			if ((s[k] == ';' || s[k] == '#') &&
			    (k == 0 || s[k - 1] == ' ')) {
				n = k;
				break;
			}
		indent = n && sp(s[0]);
		strip(&s, &n);
		if (!n)
			continue;
		if (indent && key[0]) {
			if (emit(line, section, key, (int) strlen(key), s, n))
				return line;
			continue;
		}
		if (s[0] == '[') {
			for (k = 1; k < n && s[k] != ']'; k++)
				;
			if (k == n)
				return line;
			memcpy(section, s + 1, (size_t) (k - 1));
			section[k - 1] = 0;
			key[0] = 0;
			continue;
		}
		for (k = 0; k < n && s[k] != '=' && s[k] != ':'; k++)
			;
		if (k == n)
			return line;
		const char *v = s + k + 1;
		int vn = n - k - 1, kn = k;
		strip(&s, &kn);
		strip(&v, &vn);
		memcpy(key, s, (size_t) kn);
		key[kn] = 0;
		if (emit(line, section, key, kn, v, vn))
			return line;
	}
	return 0;
}

static int token;
/* a second text, parsed by the callback while the first one is parsed */
static bool nested;
static int ninner;
static int on_inner(void *arg, int line, const char *section, const char *key,
		    const char *value)
{
	static const struct {
		int line;
		const char *section, *key, *value;
	} w[] = {{2, "inner", "ik", "iv"}, {3, "inner", "ik", "more"}, {5, "other", "x", ""}};

	MC_CHECK(arg == &ninner, "arg", "user argument not passed");
	MC_CHECK(ninner < 3 && line == w[ninner].line && !strcmp(section, w[ninner].section) &&
			 !strcmp(key, w[ninner].key) && !strcmp(value, w[ninner].value),
		 "nested", "item %d of a text parsed in a callback is line %d, section '%s', key '%s', value '%s'",
		 ninner, line, section, key, value);
	ninner++;
	return 0;
}
static int on_item(void *arg, int line, const char *section, const char *key,
		   const char *value)
{
	struct item *i = &got[ngot];

	MC_CHECK(arg == &token, "arg", "user argument not passed");
	MC_CHECK(ngot < MAXITEM, "items", "too many items");
	if (nested) {
		ninner = 0;
		int rc = sc_ini_parse_string(&ninner, on_inner, "[inner]\nik = iv ; c\n  more\n[other]\nx:\n");
		MC_CHECK(rc == 0 && ninner == 3, "nested",
			 "parsing another text in a callback: result %d, %d of 3 items", rc, ninner);
	}
	i->line = line;
	snprintf(i->section, sizeof(i->section), "%s", section);
	snprintf(i->key, sizeof(i->key), "%s", key);
	snprintf(i->value, sizeof(i->value), "%s", value);
	ngot++;
	return ngot == stop_at ? stop_rv : 0;
}

/* ---- file seam --------------------------------------------------------- */
static const char *f_text;
static long f_len, f_pos, f_chunk, f_err_at;
static int f_open, f_fail_open;

static ssize_t rd(void *c, char *b, size_t n)
{
	long k = f_len - f_pos;

	(void) c;
	if (f_err_at >= 0 && f_pos >= f_err_at) {
		errno = EIO;
		return -1;
	}
	if (k > (long) n)
		k = (long) n;
	if (f_chunk && k > f_chunk)
		k = f_chunk;
	if (f_err_at >= 0 && f_pos + k > f_err_at)
		k = f_err_at - f_pos;
	memcpy(b, f_text + f_pos, (size_t) k);
	f_pos += k;
	return k;
}

static int cl(void *c)
{
	(void) c;
	f_open--;
	return 0;
}

FILE *mc_fopen(const char *name, const char *mode)
{
	static char buf[64];
	cookie_io_functions_t io = {rd, NULL, NULL, cl};
	FILE *f;

	MC_CHECK(!strcmp(name, "the.ini"), "file-name", "opened '%s'", name);
	MC_CHECK(mode[0] == 'r' && !strchr(mode, '+'), "file-mode",
		 "opened with mode '%s'", mode);
	if (f_fail_open) {
		errno = ENOENT;
		return NULL;
	}
	f = fopencookie(buf, "r", io);
	if (f)
		setvbuf(f, buf, _IOFBF, sizeof(buf));
	f_open++;
	f_pos = 0;
	return f;
}

static void show(const char *t, int n, const char *how)
{
	static char b[300];
	int k = 0;

	for (int i = 0; i < n && k < 280; i++)
		if (t[i] == '\n')
			b[k++] = '\\', b[k++] = 'n';
		else
			b[k++] = t[i];
	b[k] = 0;
	mc_note("%s of '%s', callback %d returns %d\n", how, b, stop_at, stop_rv);
}

static void compare(const char *t, int n, int rc, const char *how)
{
	for (int i = 0; i < ngot && i < nexp; i++) {
		struct item *g = &got[i], *e = &exp_[i];
		if (g->line == e->line && !strcmp(g->section, e->section) &&
		    !strcmp(g->key, e->key) && !strcmp(g->value, e->value))
			continue;
		show(t, n, how);
		mc_fail("item", "item %d is line %d, section '%s', key '%s', "
			"value '%s', expected line %d, '%s', '%s', '%s'", i,
			g->line, g->section, g->key, g->value, e->line,
			e->section, e->key, e->value);
	}
	if (ngot != nexp) {
		show(t, n, how);
		mc_fail("item-count", "%d items reported, expected %d", ngot,
			nexp);
	}
	if (rc != exp_rc) {
		show(t, n, how);
		mc_fail("result", "result is %d, expected %d", rc, exp_rc);
	}
}

static void one(const char *t, int n, bool files)
{
	int rc;

	exp_rc = reference(t, n);
	ngot = 0;
	rc = sc_ini_parse_string(&token, on_item, t);
	compare(t, n, rc, "string parse");
	if (!files)
		return;
	f_text = t;
	f_len = n;
	f_chunk = 0;
	f_err_at = -1;
	ngot = 0;
	rc = sc_ini_parse_file(&token, on_item, "the.ini");
	compare(t, n, rc, "file parse");
	MC_CHECK(!f_open, "file-leak", "file not closed");
}

/* ---- all texts over an alphabet ---------------------------------------- */
static const char *alpha, *prefix;
static int len;
static uint64_t cnt;
static void run(void)
{
	char t[128];
	int k = (int) strlen(prefix), na = (int) strlen(alpha);

	memcpy(t, prefix, (size_t) k);
	for (int i = 0; i < len; i++)
		t[k++] = alpha[mc_choose(na)];
	t[k] = 0;
	if (mc_replaying)
		show(t, k, "parse");
	stop_at = 0;
	one(t, k, cnt++ % 8 == 0 || mc_replaying);
	mc_distinct_add(exp_, sizeof(exp_[0]) * (size_t) (nexp < 2 ? nexp : 2));
}

/* ---- all texts of whole lines ------------------------------------------ */
static const char *lines[] = {
	"[s]", "[t]x", "k=v", "k2 : w ", " c1", "\tc2 ;x", "", "  ", ";c", " #c",
	"k=", "=v", "[", "junk", "a=b=c:d", " [s2]", "k;=v#", "k =  ;c", "[ s p ]\r",
	"k=v\r", " k3=v3",
};
#define NL ((int) (sizeof(lines) / sizeof(lines[0])))
static int nlines;
static void run_lines(void)
{
	char t[256];
	int k = 0;

	if (mc_choose(2))
		k = sprintf(t, "\xEF\xBB\xBF");
	for (int i = 0; i < nlines; i++)
		k += sprintf(t + k, "%s%s", lines[mc_choose(NL)],
			     i + 1 < nlines ? "\n" : "");
	if (mc_choose(2))
		k += sprintf(t + k, "\n");
	t[k] = 0;
	stop_at = mc_choose(4);
	stop_rv = (const int[]){-1, 1, 2, INT_MIN, INT_MAX, 256, -256}[(k + stop_at) % 7];
	if (mc_replaying)
		show(t, k, "parse");
	one(t, k, nlines < 4 || cnt++ % 8 == 0 || mc_replaying);
	if (nlines < 4) {
		nested = true;
		one(t, k, true);
		nested = false;
	}
	mc_distinct_add(exp_, sizeof(exp_[0]) * (size_t) (nexp < 2 ? nexp : 2));
}

/* ---- file chunks and errors -------------------------------------------- */
static void run_file(void)
{
	char t[256];
	int k = 0, rc, n, full;

	for (int i = 0; i < nlines; i++)
		k += sprintf(t + k, "%s\n", lines[mc_choose(NL)]);
	t[k] = 0;
	stop_at = 0;
	f_text = t;
	f_len = k;
	f_chunk = 1 + mc_choose(3);
	n = mc_choose(k + 2);
	f_err_at = n - 1; /* -1: no error */
	f_fail_open = mc_choose(2);
	mc_note("file '%s' in chunks of %ld, read error at byte %ld%s", t,
		f_chunk, f_err_at, f_fail_open ? ", open fails" : "");
	exp_rc = reference(t, k);
	ngot = 0;
	rc = sc_ini_parse_file(&token, on_item, "the.ini");
	MC_CHECK(!f_open, "file-leak", "file not closed");
	if (f_fail_open) {
		MC_CHECK(rc == -1 && !ngot, "open", "result %d after open failed",
			 rc);
		f_fail_open = 0;
		return;
	}
	if (f_err_at < 0 || (exp_rc > 0 && rc == exp_rc)) {
		compare(t, k, rc, "file parse");
	} else {
		/* -1, or the line that the error cut short */
		MC_CHECK(rc == -1 || rc > 0, "read-error", "result %d after a read "
			 "error at byte %ld of %d", rc, f_err_at, k);
		full = ngot;
		for (int i = 0; i < full && i < nexp; i++)
			MC_CHECK(got[i].line == exp_[i].line &&
					 !strcmp(got[i].key, exp_[i].key) &&
					 !strcmp(got[i].section,
						 exp_[i].section),
				 "read-error", "wrong item before the error");
		MC_CHECK(full <= nexp, "read-error", "additional items");
	}
	mc_distinct_add(got, sizeof(got[0]) * (size_t) (ngot < 2 ? ngot : 2));
}

/* ---- long lines, keys and sections ------------------------------------- */
static void run_long(void)
{
	static const int kl[] = {1, 2, 127, 253, 254, 255};
	static const int ll[] = {10,   900,  1018, 1019, 1020, 1021, 1022, 1023,
				 1024, 1025, 1026, 1027, 2044, 2045, 2046, 2047,
				 2048, 2049, 3000, 4096};
	static char t[MAXT * 4];
	int k = 0, kn = kl[mc_choose(6)], sn = kl[mc_choose(6)];
	int l = ll[mc_choose(20)], kind = mc_choose(4), file = mc_choose(2), rc;
	int vstart, last = mc_choose(2);

	stop_at = 0;
	mc_note("section of %d, key of %d bytes, line kind %d of %d bytes, "
		"%s, %s", sn, kn, kind, l, file ? "file" : "string",
		last ? "last line" : "followed by another");
	t[k++] = '[';
	memset(t + k, 's', (size_t) sn);
	k += sn;
	k += sprintf(t + k, "]\n");
	vstart = k;
	if (kind == 0 || kind == 3) { /* key = value */
		memset(t + k, 'k', (size_t) kn);
		k += kn;
		t[k++] = '=';
	} else if (kind == 1) { /* continuation */
		memset(t + k, 'k', (size_t) kn);
		k += kn;
		k += sprintf(t + k, "=v0\n");
		vstart = k;
		t[k++] = ' ';
	} else { /* comment */
		t[k++] = '#';
	}
	if (l <= k - vstart)
		return;
	while (k - vstart < l) {
		/* text that would be an item if the line were split */
		static const char pat[] = "v=vv=v";
		t[k] = pat[(k - vstart) % 6];
		k++;
	}
	if (kind == 3 && l > 300) {
		t[k - 1] = ';';
		t[k - 2] = ' ';
	}
	if (!last)
		k += sprintf(t + k, "\nnext=1\n");
	t[k] = 0;
	ngot = 0;
	f_text = t;
	f_len = k;
	f_chunk = 0;
	f_err_at = -1;
	rc = file ? sc_ini_parse_file(&token, on_item, "the.ini")
		  : sc_ini_parse_string(&token, on_item, t);
	MC_CHECK(!f_open, "file-leak", "file not closed");
	MC_CHECK(rc == 0, "long", "result %d", rc);
	nexp = 0;
	if (kind == 1)
		nexp++;
	if (kind != 2)
		nexp++;
	if (!last)
		nexp++;
	MC_CHECK(ngot == nexp, "long-items", "%d items reported, expected %d",
		 ngot, nexp);
	for (int i = 0; i < ngot; i++) {
		struct item *g = &got[i];
		int line = 2 + i;
		if (kind == 2 && !last)
			line++;
		MC_CHECK((int) strlen(g->section) == sn && g->section[0] == 's',
			 "long-section", "section of %zu bytes, expected %d",
			 strlen(g->section), sn);
		MC_CHECK(g->line == line, "long-line", "line %d, expected %d",
			 g->line, line);
		if (!last && i == ngot - 1) {
			MC_CHECK(!strcmp(g->key, "next") &&
					 !strcmp(g->value, "1"),
				 "long-next", "the next line is wrong");
			continue;
		}
		MC_CHECK((int) strlen(g->key) == kn && g->key[0] == 'k',
			 "long-key", "key of %zu bytes, expected %d",
			 strlen(g->key), kn);
		if (kind == 1 && i == 0) {
			MC_CHECK(!strcmp(g->value, "v0"), "long-value",
				 "value");
			continue;
		}
		if (kind != 2) {
			int off = kind == 1 ? 1 : kn + 1;
			int vn = (int) strlen(g->value), full = l - off;
			int cut = l <= 1022 ? full : 1000 - off;
			if (kind == 3 && l > 300 && l <= 1022)
				full = cut = full - 2;
			MC_CHECK(vn <= full && vn >= cut &&
					 !memcmp(g->value, t + vstart + off,
						 (size_t) vn),
				 "long-value", "value of %d bytes, the line has "
				 "%d", vn, full);
		}
	}
	mc_distinct_add(&k, sizeof(k));
}

/* every byte within the part of a line that does not fit, and around it */
static void run_tail(void)
{
	static const int at[] = {4, 500, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1400, 2045, 2046, 2047,
				 2048, 2998, 2999};
	static const int ll[] = {1022, 1023, 1024, 1030, 2047, 3000};
	static char t[4096];
	int l = ll[mc_choose(6)], p = at[mc_choose(19)], c = 1 + mc_choose(255), file = mc_choose(2), rc;

	if (p >= l || c == '\n')
		return;
	stop_at = 0;
	t[0] = 'k';
	t[1] = '=';
	for (int i = 2; i < l; i++)
		t[i] = "v=w"[i % 3];
	t[p] = (char) c;
	sprintf(t + l, "\nnext=1\n c2\n");
	mc_note("line of %d bytes, byte %d is %d, %s", l, p, c, file ? "file" : "string");
	ngot = 0;
	f_text = t;
	f_len = (long) strlen(t);
	f_chunk = 0;
	f_err_at = -1;
	rc = file ? sc_ini_parse_file(&token, on_item, "the.ini") : sc_ini_parse_string(&token, on_item, t);
	MC_CHECK(!f_open, "file-leak", "file not closed");
	MC_CHECK(rc == 0 && ngot == 3, "long-items", "result %d, %d items of 3", rc, ngot);
	MC_CHECK(got[0].line == 1 && !strcmp(got[0].key, "k"), "long-items", "the long line");
	MC_CHECK(got[1].line == 2 && !strcmp(got[1].key, "next") && !strcmp(got[1].value, "1") && got[2].line == 3 &&
		 !strcmp(got[2].key, "next") && !strcmp(got[2].value, "c2"), "long-next", "the lines after a long one");
	mc_distinct_add(&l, sizeof(l));
}

/* ---- many lines ---------------------------------------------------------- */
static uint64_t m_items;
static int m_line, m_step, m_kind;
static int on_many(void *arg, int line, const char *section, const char *key,
		   const char *value)
{
	char want[32], wkey[32] = "k", wsec[32] = "s";

	MC_CHECK(arg == &token, "arg", "user argument not passed");
	snprintf(want, sizeof(want), "v%d", line);
	if (m_kind == 3 && line > 2)
		strcpy(wkey, "\xEF\xBB\xBFk");
	if (m_kind == 4 && line > 2)
		snprintf(wsec, sizeof(wsec), "s%d", line - 1);
	if (m_kind == 5 && line > 2)
		snprintf(wkey, sizeof(wkey), "k%d", line);
	MC_CHECK(line == m_line + m_step && !strcmp(value, want) &&
			 !strcmp(section, wsec) && !strcmp(key, wkey), "many",
		 "item %lu: line %d, section '%s', key '%s', value '%s'", m_items, line,
		 section, key, value);
	m_line = line;
	m_items++;
	return stop_at && line >= stop_at ? -1 : 0;
}

static void run_many(void)
{
	static char t[2000000];
	static const int n_[] = {127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70000};
	int n = n_[mc_choose(10)], k = 0, file = mc_choose(2), kind = mc_choose(6), rc;

	stop_at = mc_choose(2) ? n - 3 : 0;
	m_step = kind == 2 || kind == 4 ? 2 : 1;
	m_kind = kind;
	mc_note("%d lines of kind %d, %s%s", n, kind, file ? "file" : "string",
		stop_at ? ", stopped" : "");
	k += sprintf(t, "[s]\nk=v2\n");
	for (int i = 3; i <= n; i++) {
		if (kind == 2 && i % 2)
			k += sprintf(t + k, "; comment\n");
		else if (kind == 3) /* a byte order mark is one on the first line only */
			k += sprintf(t + k, "\xEF\xBB\xBFk=v%d\n", i);
		else if (kind == 4)
			k += sprintf(t + k, i % 2 ? "[s%d]\n" : "k=v%d\n", i);
		else if (kind == 5)
			k += sprintf(t + k, "k%d = v%d\n", i, i);
		else
			k += sprintf(t + k, kind == 1 ? " v%d\n" : "k=v%d\n", i);
	}
	t[k] = 0;
	m_items = 0;
	m_line = 2 - m_step;
	f_text = t;
	f_len = k;
	f_chunk = 0;
	f_err_at = -1;
	rc = file ? sc_ini_parse_file(&token, on_many, "the.ini")
		  : sc_ini_parse_string(&token, on_many, t);
	MC_CHECK(!f_open, "file-leak", "file not closed");
	if (stop_at)
		MC_CHECK(rc == m_line && m_line >= stop_at && m_line <= stop_at + 1, "many",
			 "result %d, last line %d", rc, m_line);
	else
		MC_CHECK(rc == 0 && m_line >= n - 1 && m_line <= n, "many",
			 "result %d, last line %d of %d", rc, m_line, n);
	mc_distinct_add(&k, sizeof(k));
}

/* ---- every byte at every position of some texts --------------------------- */
static const char *const tmpl[] = {"[sec]\nkey = value ; c\n cont\nk2:v2 # x\n", "\n[ a ]\na=b=c", "\xEF\xBB\xBFk=v\n ;c\n x"};
static int tm_, tpos;
static void run_bytes(void)
{
	char t[64];
	int c = mc_choose(256), ins = mc_choose(2), k;

	if (!c)
		return;
	memcpy(t, tmpl[tm_], (size_t) tpos);
	t[tpos] = (char) c;
	strcpy(t + tpos + 1, tmpl[tm_] + tpos + !ins);
	k = (int) strlen(t);
	stop_at = 0;
	if (mc_replaying)
		show(t, k, "parse");
	one(t, k, true);
	mc_distinct_add(exp_, sizeof(exp_[0]) * (size_t) (nexp < 2 ? nexp : 2));
}

int main(int argc, char **argv)
{
	static const char *pre[] = {"", "k=v\n", "[s]\nk=v\n ", "\xEF\xBB\xBF"};

	mc_init(argc, argv);
	alpha = "a= \n[];#:\t\r";
	for (int p = 0; p < 4; p++)
		for (int l = 0; l <= (mc_thorough ? 7 : 6); l++)
			if (mc_mine("ini '%d'+%d", p, l)) {
				len = l;
				prefix = pre[p];
				mc_dfs(run, 0, UINT64_MAX);
			}
	/* bytes that are not ASCII, parts of a byte order mark among them */
	alpha = "\xEF\xBB\xBF" "a=\n \x80\xA0\xFF";
	for (int p = 0; p < 2; p++)
		for (int l = 1; l <= (mc_thorough ? 6 : 5); l++)
			if (mc_mine("ini bytes '%d'+%d", p, l)) {
				len = l;
				prefix = pre[p];
				mc_dfs(run, 0, UINT64_MAX);
			}
	for (tm_ = 0; tm_ < 3; tm_++)
		for (tpos = 0; tpos < (int) strlen(tmpl[tm_]); tpos++)
			if (mc_mine("ini byte %d of text %d", tpos, tm_))
				mc_dfs(run_bytes, 0, UINT64_MAX);
	if (mc_mine("ini many"))
		mc_dfs(run_many, 0, UINT64_MAX);
	for (int l = 1; l <= (mc_thorough ? 5 : 4); l++)
		if (mc_mine("ini lines %d", l)) {
			nlines = l;
			mc_dfs(run_lines, 0, UINT64_MAX);
		}
	for (int l = 1; l <= (mc_thorough ? 3 : 2); l++)
		if (mc_mine("ini file %d", l)) {
			nlines = l;
			mc_dfs(run_file, 0, UINT64_MAX);
		}
	if (mc_mine("ini tail"))
		mc_dfs(run_tail, 0, UINT64_MAX);
	if (mc_mine("ini long"))
		mc_dfs(run_long, 0, UINT64_MAX);
	stop_at = 0;
	MC_CHECK(sc_ini_parse_string(&token, on_item, NULL) == 0, "null", "NULL");
	return mc_done();
}
