/* C14: every small string against a reference splitter. */
#include "mc.h"
#include "sc_uri.h"

#include <string.h>

struct part {
	const char *s;
	size_t n;
};
struct ref {
	bool ok;
	struct part scheme, userinfo, host, port, path, query, fragment;
};

static size_t span_not(const char *s, size_t n, const char *set)
{
	size_t i = 0;
	while (i < n && !strchr(set, s[i]))
		i++;
	return i;
}

/* scheme ":" ["//" [userinfo "@"] host [":" port]] path ["?" query] ["#" fragment] */
static struct ref ref_parse(const char *str)
{
	struct ref r;
	const char *p = str, *a;
	size_t n = strlen(str), k, m;

	memset(&r, 0, sizeof(r));
	r.scheme.s = r.userinfo.s = r.host.s = r.port.s = r.path.s = r.query.s =
		r.fragment.s = "";
	k = span_not(p, n, ":");
	if (k == n)
		return r;
	r.scheme = (struct part){p, k};
	p += k + 1;
	n -= k + 1;
	if (n >= 2 && p[0] == '/' && p[1] == '/') {
		p += 2;
		n -= 2;
		m = span_not(p, n, "/?#"); /* authority */
		a = p;
		p += m;
		n -= m;
		k = span_not(a, m, "@");
		if (k < m) {
			r.userinfo = (struct part){a, k};
			a += k + 1;
			m -= k + 1;
		}
		if (m && a[0] == '[') {
			k = span_not(a, m, "]");
			if (k == m)
				return r;
			k++;
		} else {
			k = span_not(a, m, ":");
		}
		r.host = (struct part){a, k};
		a += k;
		m -= k;
		if (m) {
			unsigned long v = 0;
			if (a[0] != ':')
				return r;
			a++;
			m--;
			if (m == 0 && n == 0)
				return r; /* nothing after the colon */
			for (size_t i = 0; i < m; i++) {
				if (a[i] < '0' || a[i] > '9')
					return r;
				v = v * 10 + (unsigned long) (a[i] - '0');
				if (v > 65535)
					return r;
			}
			r.port = (struct part){a, m};
		}
	}
	k = span_not(p, n, "?#");
	r.path = (struct part){p, k};
	p += k;
	n -= k;
	if (n && p[0] == '?') {
		k = span_not(p, n, "#");
		r.query = (struct part){p + 1, k - 1};
		p += k;
		n -= k;
	}
	if (n)
		r.fragment = (struct part){p + 1, n - 1};
	r.ok = true;
	return r;
}

static void cmp(const char *what, const char *s, struct part p, const char *in)
{
	MC_CHECK(s && strlen(s) == p.n && !memcmp(s, p.s, p.n), what,
		 "%s of '%s' is '%s', expected '%.*s'", what, in, s ? s : "NULL",
		 (int) p.n, p.s);
}

static void one(const char *in, int fail)
{
	struct ref r = ref_parse(in);
	struct sc_uri *u;

	mc_alloc_reset(fail);
	u = sc_uri_create(in);
	if (fail && mc_alloc_failed) {
		MC_CHECK(!u, "oom", "created although out of memory");
		MC_CHECK(!mc_live_blocks(), "leak", "leak");
		return;
	}
	MC_CHECK(!!u == r.ok, "accept", "'%s' is %s, expected %s", in,
		 u ? "accepted" : "rejected", r.ok ? "accepted" : "rejected");
	if (u) {
		cmp("scheme", u->scheme, r.scheme, in);
		cmp("userinfo", u->userinfo, r.userinfo, in);
		cmp("host", u->host, r.host, in);
		cmp("port", u->port, r.port, in);
		cmp("path", u->path, r.path, in);
		cmp("query", u->query, r.query, in);
		cmp("fragment", u->fragment, r.fragment, in);
		MC_CHECK(!strcmp(u->str, in), "str", "str is '%s' for '%s'",
			 u->str, in);
		MC_CHECK(u->str != in, "str", "str is not a copy");
		mc_distinct_add(in, strlen(in));
	}
	sc_uri_destroy(u);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}

static const char *prefix, *alpha, *suffix;
static int len;
static void run(void)
{
	char s[64];
	int k = (int) strlen(prefix), na = (int) strlen(alpha);

	memcpy(s, prefix, (size_t) k);
	for (int i = 0; i < len; i++)
		s[k++] = alpha[mc_choose(na)];
	strcpy(s + k, suffix);
	if (mc_replaying)
		mc_note("'%s'", s);
	mc_heap_reset();
	one(s, 0);
	if (len < 4)
		one(s, 1);
}

#define NPORTS (66000 + 28)
static uint64_t nports;
static void ports(void)
{
	char s[64];
	static const char *big[] = {"4294967295", "4294967296", "18446744073709551615",
		"18446744073709551616", "18446744073709551696", "99999999999999999999999",
		"000000000000000000000080", "65535", "65536", "0", "00", "70000",
		/* ports that look valid once truncated to 16, 32 or 48 bits */
		"65616", "131152", "2147483647", "2147483648", "2147483728",
		"4294967376", "4295032831", "4295032832", "8589934672",
		"1099511627856", "281474976710736", "9223372036854775807",
		"9223372036854775808", "9223372036854775888",
		"18446744069414584400", "36893488147419103312"};
	int i = mc_choose(NPORTS);
	nports++;
	const char *t = mc_choose(2) ? "" : "/p?q#f";

	mc_heap_reset();
	if (i < 66000)
		snprintf(s, sizeof(s), "http://h:%d%s", i, t);
	else
		snprintf(s, sizeof(s), "http://h:%s%s", big[i - 66000], t);
	one(s, 0);
}

/* long components: every part at every length around powers of two */
static void lengths(void)
{
	static const int ln[] = {0, 1, 2, 15, 16, 63, 64, 255, 256, 1023, 1024, 5000,
				 32767, 32768, 65535, 65536, 70000};
	static char s[300000];
	int which = mc_choose(6), l = ln[mc_choose(17)], l2 = ln[mc_choose(17)];
	int a[6];
	char *p = s;

	mc_heap_reset();
	for (int i = 0; i < 6; i++)
		a[i] = i == which ? l : i == (which + 1) % 6 ? l2 : 3;
#define FILL(c, n) (memset(p, c, (size_t) (n)), p += (n))
	FILL('s', a[0]);
	p += sprintf(p, "://");
	FILL('u', a[1]);
	p += sprintf(p, "@");
	FILL('h', a[2]);
	p += sprintf(p, ":80/");
	FILL('p', a[3]);
	p += sprintf(p, "?");
	FILL('q', a[4]);
	p += sprintf(p, "#");
	FILL('f', a[5]);
	*p = 0;
	one(s, 0);
}

/* every byte in place of, and every pair of bytes inside, each position of some addresses */
static const char *const tmpl[] = {"http://user:pw@host:80/path/x?q=1#frag", "mailto:a@b", "s://[::1]:9/?#",
	"a:b", "a://h", "a:/p", "a:?q", "a:#f"};
static int tm_, tpos;
static void bytes(void)
{
	char s[64];
	int c = mc_choose(256), ins = mc_choose(2), d = 0;

	if (!c)
		return;
	mc_heap_reset();
	if (ins && tm_ > 2) /* two bytes, any after some */
		d = 1 + mc_choose(255);
	memcpy(s, tmpl[tm_], (size_t) tpos);
	s[tpos] = (char) c;
	if (d)
		s[tpos + 1] = (char) d;
	strcpy(s + tpos + 1 + !!d, tmpl[tm_] + tpos + !ins);
	if (mc_replaying)
		mc_note("'%s'", s);
	one(s, 0);
}

int main(int argc, char **argv)
{
	static const char *pre[] = {"", "a:", "a://", "a://[", "a://a:", "a://u@h:1"};
	static const char *al[] = {"a1:/@?#[]", "0165+- /a?#:"};

	mc_init(argc, argv);
	for (int p = 0; p < 6; p++)
		for (int s = 0; s < 2; s++)
			for (int l = 0; l <= (mc_thorough ? 7 : 6); l++) {
				prefix = pre[p];
				alpha = al[0];
				suffix = s ? "/a@b:1" : "";
				len = s ? l - 2 : l;
				if (len < 0 || !mc_mine("uri '%s'+%d+'%s'", prefix,
							len, suffix))
					continue;
				mc_dfs(run, 0, UINT64_MAX);
			}
	for (int l = 0; l <= (mc_thorough ? 6 : 5); l++) {
		prefix = "a://h:";
		alpha = al[1];
		suffix = "";
		len = l;
		if (mc_mine("uri port %d", l))
			mc_dfs(run, 0, UINT64_MAX);
	}
	for (tm_ = 0; tm_ < 8; tm_++)
		for (tpos = 0; tpos < (int) strlen(tmpl[tm_]); tpos++)
			if (mc_mine("uri bytes %d at %d", tm_, tpos))
				mc_dfs(bytes, 0, UINT64_MAX);
	if (mc_mine("uri ports")) {
		mc_dfs(ports, 0, UINT64_MAX);
		if (!mc_replaying && nports != 2 * NPORTS)
			mc_incomplete("not every port explored");
	}
	mc_arena_limit = 4 << 20;
	if (mc_mine("uri lengths"))
		mc_dfs(lengths, 0, UINT64_MAX);
	MC_CHECK(!sc_uri_create(NULL), "null", "create(NULL)");
	return mc_done();
}
