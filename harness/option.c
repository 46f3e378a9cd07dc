/* C16: all option tables over small name sets and all small arguments. */
#include "mc.h"
#include "sc_option.h"

#include <stdlib.h>
#include <string.h>

struct opt {
	char letter;
	const char *name;
};
static const struct opt *xpool; /* in place of pool */
static const struct opt pool[] = {{'a', NULL},  {'b', "b"},  {'a', "ab"}, {'c', "abc"},
	    {'b', "a"},	  {'d', "a-b"}, {'e', "aa"}, {'-', "b-"}, {'e', "ab"}};
#define NPOOL 9
#define POOL(i) (xpool ? xpool[table[i]] : pool[table[i]])

static int table[300], ntable;

/* fills the expected letter and value; false: not decided by the documentation */
static bool expect(const char *arg, char *id, const char **value)
{
	const char *eq;
	size_t n;

	*id = '?';
	*value = NULL;
	if (arg[0] != '-')
		return true;
	if (arg[1] != '-') {
		if (arg[1] && arg[2] == ' ')
			return false;
		for (int i = 0; arg[1] && i < ntable; i++)
			if (POOL(i).letter == arg[1]) {
				if (arg[2] && arg[2] != '=')
					return true;
				*id = arg[1];
				*value = arg[2] ? arg + 3 : arg + 2;
				return true;
			}
		return true;
	}
	eq = strchr(arg, '=');
	n = (eq ? (size_t) (eq - arg) : strlen(arg)) - 2;
	for (int i = 0; i < ntable; i++) {
		const char *m = POOL(i).name;
		if (m && strlen(m) == n && !memcmp(m, arg + 2, n)) {
			*id = POOL(i).letter;
			*value = eq ? eq + 1 : arg + strlen(arg);
			return true;
		}
	}
	return true;
}

static struct sc_option_item *items;

static void one(const char *arg, int index)
{
	struct sc_option opt;
	char *argv[5] = {NULL, NULL, NULL, NULL, NULL};
	char *value = (char *) "unset", *val2, id, id2;
	const char *ev;
	size_t n = strlen(arg);
	char *a = malloc(n + 1);
	char *prog = strdup("-a=prog");

	mc_tick();
	mc_evals++;
	if (!expect(arg, &id, &ev)) {
		free(a);
		free(prog);
		return;
	}
	memcpy(a, arg, n + 1);
	for (int i = 0; i < 4; i++)
		argv[i] = prog;
	argv[index] = a;
	opt = (struct sc_option){
		.options = items, .count = ntable, .argv = argv};
	if (mc_replaying) {
		mc_note_reset();
		for (int i = 0; i < ntable; i++)
			mc_note("option %c %s", POOL(i).letter,
				POOL(i).name ? POOL(i).name : "NULL");
		mc_note("argument %s", arg);
	}
	id2 = sc_option_at(&opt, index, &value);
	MC_CHECK(id2 == id, "id", "'%s' is option %c instead of %c", arg, id2, id);
	if (id != '?')
		MC_CHECK(value == a + (ev - arg), "value",
			 "'%s': wrong value (offset %ld instead of %ld)", arg,
			 value ? (long) (value - a) : -1L, (long) (ev - arg));
	MC_CHECK(!memcmp(a, arg, n + 1) && !strcmp(prog, "-a=prog"), "arg",
		 "argument '%s' changed", arg);
	/* asking again, in any order, gives the same answer */
	sc_option_at(&opt, (index + 1) % 4, &val2);
	id2 = sc_option_at(&opt, index, &val2);
	MC_CHECK(id2 == id && (id == '?' || val2 == value), "again",
		 "'%s': second answer differs", arg);
	if (id != '?')
		mc_distinct_add(arg, n);
	free(a);
	free(prog);
}

static void args(int len, char *buf, int pos, int index)
{
	static const char al[] = "-=abcd";

	buf[pos] = 0;
	one(buf, index);
	if (pos == len)
		return;
	for (const char *c = al; *c; c++) {
		buf[pos] = *c;
		args(len, buf, pos + 1, index);
	}
	buf[pos] = 0;
}

static const char *const longer[] = {
	"--abc=value with spaces", "--ab", "--a-b==x", "--abc=--abc", "-a=-b=c", "-b==",
	"--b-", "--b-=1", "--", "-", "---", "--=", "-=", "", "--abcd", "--ab c", "a=b",
	"-a=\xff\x80", "--aa=\xff", "-\xff", "--\xff", "-aa", "-ab=c", "--a=", "--abc ",
};

static void build(void)
{
	items = malloc(sizeof(*items) * (size_t) (ntable ? ntable : 1));
	for (int i = 0; i < ntable; i++) {
		struct sc_option_item it = {POOL(i).letter, POOL(i).name};
		memcpy(&items[i], &it, sizeof(it));
	}
}

/* every byte as letter, in a name and in an argument */
static void bytes(void)
{
	struct opt o[3];
	char name[4], arg[16];

	xpool = o;
	ntable = 3;
	for (int i = 0; i < 3; i++)
		table[i] = i;
	for (int c = 1; c < 256; c++) {
		if (c == '=' || !mc_mine("byte %d", c))
			continue;
		sprintf(name, "x%cy", c);
		o[0] = (struct opt){'q', NULL};
		o[1] = (struct opt){(char) c, name};
		o[2] = (struct opt){'r', "xy"};
		build();
		for (int d = 1; d < 256; d++) {
			static const char *const form[] = {"-%c", "-%c=", "-%c=v%c", "--x%cy", "--x%cy=%c", "--x%cy%c", "--%cy",
							   "%c", "--x%c", "-%c%c", "--%cx%cy", "-=%c", "--q%c%c"};
			for (int f = 0; f < 13; f++) {
				/* with both bytes in both roles */
				sprintf(arg, form[f], d, c);
				one(arg, f % 4);
				sprintf(arg, form[f], c, d);
				one(arg, f % 4);
			}
		}
		free(items);
	}
}

/* long tables, long names and long values */
static void large(void)
{
	static const int ln[] = {127, 128, 255, 256, 257, 1000, 65535, 65536, 70000};
	struct opt *o = calloc(300, sizeof(*o));
	char *buf = malloc(150000), *longname[9];

	xpool = o;
	for (ntable = 126; ntable <= 300; ntable++) {
		if (!mc_mine("table of %d", ntable))
			continue;
		for (int i = 0; i < ntable; i++) {
			char n[16];
			sprintf(n, "name%d", i / 2 * 2); /* every name twice */
			o[i] = (struct opt){(char) (i % 250 + 1), strdup(n)};
			table[i] = i;
		}
		build();
		for (int i = 0; i < ntable; i++) {
			sprintf(buf, "--name%d=%d", i, i);
			one(buf, i % 4);
			if (o[i].letter != '-') {
				sprintf(buf, "-%c=%d", o[i].letter, i);
				one(buf, i % 4);
			}
		}
		free(items);
		for (int i = 0; i < ntable; i++)
			free((char *) o[i].name);
	}
	ntable = 9;
	for (int i = 0; i < 9; i++) {
		longname[i] = malloc((size_t) ln[i] + 1);
		memset(longname[i], 'n', (size_t) ln[i]);
		longname[i][ln[i]] = 0;
		o[i] = (struct opt){(char) ('a' + i), longname[i]};
		table[i] = i;
	}
	build();
	if (mc_mine("long names"))
		for (int i = 0; i < 9; i++)
			for (int d = -2; d <= 2; d++) /* name length, value length */
				for (int v = -1; v < 9; v++) {
					memset(buf, 'n', 150000);
					buf[0] = buf[1] = '-';
					buf[2 + ln[i] + d] = v < 0 ? 0 : '=';
					if (v >= 0)
						buf[3 + ln[i] + d + ln[v]] = 0;
					one(buf, v & 3);
				}
	free(items);
	for (int i = 0; i < 9; i++)
		free(longname[i]);
	free(o);
	free(buf);
	xpool = NULL;
}

/* long command lines */
static void many(void)
{
	static const int at[] = {0,   1,   2,	126,  127,  128,   129,	  130,	 200,	254,   255,   256,   257,   258,   511,	  512,
				 513, 999, 1000, 1023, 1024, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 69999, 70000, 99999};
	static const struct opt o[] = {{'v', "value"}, {'w', NULL}};
	enum { N = 100000 };
	char **argv = malloc(N * sizeof(*argv)), want[16], *value;

	xpool = o;
	ntable = 2;
	table[0] = 0;
	table[1] = 1;
	build();
	for (int i = 0; i < N; i++) {
		char b[32];
		sprintf(b, i % 4 == 0 ? "--value=%d" : i % 4 == 1 ? "-v=%d" : i % 4 == 2 ? "-w%d" : "%d", i);
		if (i % 4 == 2)
			b[2] = '=';
		argv[i] = strdup(b);
	}
	for (int pass = 0; pass < 2; pass++)
		for (int i = 0; i < 32; i++) {
			struct sc_option opt = {.options = items, .count = ntable, .argv = argv};
			int k = at[pass ? 31 - i : i];
			char id, exp;

			for (int j = k; j < k + 8 && j < N; j++) {
				id = sc_option_at(&opt, j, &value);
				exp = j % 4 == 3 ? '?' : j % 4 == 2 ? 'w' : 'v';
				sprintf(want, "%d", j);
				mc_tick();
				mc_evals++;
				MC_CHECK(id == exp, "id", "argument %d, '%s', is option %c instead of %c", j, argv[j], id, exp);
				if (exp != '?' && id == exp)
					MC_CHECK(value && !strcmp(value, j % 4 == 2 ? want + 1 : want), "value", "argument %d, '%s': value '%s'", j,
						 argv[j], value ? value : "(null)");
			}
		}
	for (int i = 0; i < N; i++)
		free(argv[i]);
	free(argv);
	free(items);
	xpool = NULL;
}

int main(int argc, char **argv)
{
	char buf[16];

	mc_init(argc, argv);
	bytes();
	large();
	if (mc_mine("long command lines"))
		many();
	xpool = NULL;
	for (ntable = 0; ntable <= 3; ntable++) {
		int total = 1;
		for (int i = 0; i < ntable; i++)
			total *= NPOOL;
		for (int t = 0; t < total; t++) {
			for (int i = 0, k = t; i < ntable; i++, k /= NPOOL)
				table[i] = k % NPOOL;
			if (!mc_mine("table %d of %d options", t, ntable))
				continue;
			items = malloc(sizeof(*items) * (size_t) (ntable ? ntable : 1));
			for (int i = 0; i < ntable; i++) {
				struct sc_option_item it = {POOL(i).letter,
							    POOL(i).name};
				memcpy(&items[i], &it, sizeof(it));
			}
			args(ntable < 3 ? (mc_thorough ? 7 : 6) : (mc_thorough ? 6 : 5), buf, 0,
			     t % 4);
			for (size_t i = 0; i < sizeof(longer) / sizeof(*longer); i++)
				for (int k = 0; k < 4; k++)
					one(longer[i], k);
			free(items);
		}
	}
	mc_sample("%s -> %s", "--a-b==x", "d, value =x");
	return mc_done();
}
