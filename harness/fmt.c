/* C20: the signal safe formatter against the C library's, for all sequences of
 * conversions and all buffer sizes.  -DSTEP: C21, a second call arriving at
 * every instruction of a first one. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_signal.h"
#include "step.h"

#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct tok {
	const char *fmt;
	int kind; /* 0 text, 1 string, 2 %d ... */
	uint64_t v;
};
#define S(x) (uint64_t) (uintptr_t) (x)
static const struct tok toks[] = {
	{"a", 0, 0}, {"bc d", 0, 0}, {"%%", 0, 1}, {"%%%%", 0, 2},
	{"%s", 1, S("")}, {"%s", 1, S("x")}, {"%s", 1, S("%d %s")}, {"%s", 1, 0},
	{"%s", 1, S("a longer string")},
	{"%d", 2, 0}, {"%d", 2, 7}, {"%d", 2, (uint64_t) -1}, {"%d", 2, INT_MAX},
	{"%d", 2, (uint64_t) INT_MIN}, {"%d", 2, 0xffffffff00000010}, {"%d", 2, (uint64_t) -100},
	{"%u", 3, 0}, {"%u", 3, 10}, {"%u", 3, UINT_MAX}, {"%u", 3, 0xffffffff80000000},
	{"%ld", 4, 0}, {"%ld", 4, LONG_MAX}, {"%ld", 4, (uint64_t) LONG_MIN}, {"%ld", 4, (uint64_t) -9},
	{"%ld", 4, 0x100000000},
	{"%lu", 5, 0}, {"%lu", 5, ULONG_MAX}, {"%lu", 5, 0x8000000000000000}, {"%lu", 5, 99},
	{"%lld", 4, 0}, {"%lld", 4, LLONG_MAX}, {"%lld", 4, (uint64_t) LLONG_MIN}, {"%lld", 4, 0x123456789ab},
	{"%llu", 5, 1}, {"%llu", 5, ULLONG_MAX}, {"%llu", 5, 0x100000000},
	{"%p", 6, 0}, {"%p", 6, 0xabcdef}, {"%p", 6, UINT64_MAX}, {"%p", 6, 0x1000000000},
};
#define NTOK ((int) (sizeof(toks) / sizeof(toks[0])))
static const char *const bad[] = {"%", "%x", "%c", "%l", "%ll", "%lx", "%llx", "%ls", "%i",
				  "%5d", "%-d", "%.2s", "%lld%", "%S", "%U", "%D", "% d"};

#ifdef STEP
static char out[4096]; /* what write() got */
#else
static char out[2 << 20];
#endif
static volatile size_t nout;
static volatile int out_fd;
static volatile int write_mode;

STEP_SKIP ssize_t mc_write(int fd, const void *b, size_t n)
{
	const char *p = b;
	size_t at;

	if (write_mode) {
		errno = EAGAIN;
		return -1;
	}
	at = nout;
	for (size_t i = 0; i < n && at + i < sizeof(out); i++)
		((volatile char *) out)[at + i] = p[i];
	nout = at + n;
	out_fd = fd;
	return (ssize_t) n;
}
void mc__Exit(int n)
{
	mc_fail("exit", "_Exit(%d) called", n);
}

static int expected(char *e, const struct tok *t)
{
	switch (t->kind) {
	case 0:
		if (t->v)
			return sprintf(e, "%s", t->v == 1 ? "%" : "%%");
		return sprintf(e, "%s", t->fmt);
	case 1:
		return sprintf(e, "%s", t->v ? (char *) t->v : "(null)");
	case 2:
		return sprintf(e, "%d", (int) t->v);
	case 3:
		return sprintf(e, "%u", (unsigned) t->v);
	case 4:
		return sprintf(e, "%ld", (long) t->v);
	case 5:
		return sprintf(e, "%lu", t->v);
	default:
		return sprintf(e, "0x%lx", t->v);
	}
}

static int via_list(char *b, size_t sz, const char *fmt, ...)
{
	int rc;
	va_list va;

	va_start(va, fmt);
	rc = sc_signal_vsnprintf(b, sz, fmt, va);
	va_end(va);
	return rc;
}

static void one_size(const char *fmt, uint64_t *a, const char *exp, size_t elen, size_t sz)
{
	char *b = malloc(sz + 1);
	int rc;
	size_t w = sz ? (elen < sz - 1 ? elen : sz - 1) : 0;

	mc_evals++;
	memset(b, 'Z', sz + 1);
	errno = 4711;
	rc = sc_signal_snprintf(sz ? b : b + 1, sz, fmt, a[0], a[1], a[2], a[3]);
	MC_CHECK(errno == 4711, "errno", "'%s' changed errno", fmt);
	MC_CHECK(rc == (int) w, "ret", "'%s' in %zu bytes returned %d, not %zu", fmt, sz, rc, w);
	MC_CHECK(!memcmp(b, exp, w), "text", "'%s' in %zu bytes gives '%.*s', not '%s'", fmt, sz,
		 (int) w, b, exp);
	if (sz)
		MC_CHECK(b[w] == 0, "term", "'%s' in %zu bytes is not terminated", fmt, sz);
	MC_CHECK(b[sz] == 'Z', "over", "'%s' wrote beyond %zu bytes", fmt, sz);
	if (mc_evals % 2) {
		memset(b, 'Z', sz + 1);
		rc = via_list(sz ? b : b + 1, sz, fmt, a[0], a[1], a[2], a[3]);
		MC_CHECK(errno == 4711 && rc == (int) w && !memcmp(b, exp, w) && (!sz || !b[w]) && b[sz] == 'Z', "list",
			 "'%s' in %zu bytes through a va_list gives %d '%.*s', not '%s'", fmt, sz, rc, (int) w, b, exp);
	}
	free(b);
}

#ifndef STEP
static void sequence(const struct tok **t, int n, bool all)
{
	char fmt[128] = "", exp[512] = "";
	uint64_t a[5] = {0};
	size_t ends[8], elen = 0;
	int na = 0;

	mc_tick();
	for (int i = 0; i < n; i++) {
		strcat(fmt, t[i]->fmt);
		if (t[i]->kind)
			a[na++] = t[i]->v;
		elen += (size_t) expected(exp + elen, t[i]);
		ends[i] = elen;
	}
	if (mc_replaying) {
		mc_note_reset();
		mc_note("format '%s', expected '%s'", fmt, exp);
	}
	if (all) {
		for (size_t sz = 0; sz <= elen + 2; sz++)
			one_size(fmt, a, exp, elen, sz);
	} else {
		for (int i = 0; i < n; i++)
			for (size_t d = 0; d < 3; d++)
				one_size(fmt, a, exp, elen, ends[i] + d);
	}
	one_size(fmt, a, exp, elen, 1000);
	one_size(fmt, a, exp, elen, (size_t) 1000);
	/* the log writes the same text */
	char b[600];
	nout = 0;
	out_fd = -5;
	sc_signal_log(17, b, sizeof(b), fmt, a[0], a[1], a[2], a[3]);
	MC_CHECK(nout == elen && !memcmp(out, exp, elen) && (out_fd == 17 || !elen), "log",
		 "'%s' logged as '%.*s' to %d", fmt, (int) nout, out, out_fd);
	if (elen > 1) {
		nout = 0;
		sc_signal_log(18, b, elen, fmt, a[0], a[1], a[2], a[3]);
		MC_CHECK(nout == elen - 1 && !memcmp(out, exp, elen - 1) && out_fd == 18, "log",
			 "'%s' logged truncated as '%.*s' to %d", fmt, (int) nout, out, out_fd);
	}
	mc_distinct_add(exp, elen);
	/* conversions that are not supported */
	for (size_t k = 0; k < sizeof(bad) / sizeof(*bad) && (n < 3 || k < 2); k++) {
		char f2[160];
		int rc;
		snprintf(f2, sizeof(f2), "%s%s", fmt, bad[k]);
		if (na >= 4)
			continue;
		rc = sc_signal_snprintf(b, sizeof(b), f2, a[0], a[1], a[2], 0);
		MC_CHECK(rc == -1, "bad", "'%s' returned %d", f2, rc);
		nout = 0;
		sc_signal_log(17, b, sizeof(b), f2, a[0], a[1], a[2], 0);
		MC_CHECK(nout <= elen + 8, "badlog", "'%s' logged %zu bytes", f2, nout);
	}
}

/* long literal texts and arguments, in buffers that end anywhere near the
 * ends of the pieces */
static void longs(void)
{
	static const size_t len[] = {31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023,
				     1024, 1025, 2047, 2048, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536,
				     65537, 70000, 131071, 131072, 1000000};
	static char lit[1 << 20], fmt[(1 << 20) + 64], exp[(1 << 21) + 64], b[(1 << 21) + 64];

	for (size_t i = 0; i < sizeof(lit) - 1; i++)
		lit[i] = (char) ('a' + i % 23);
	for (size_t k = 0; k < sizeof(len) / sizeof(*len); k++)
		for (int form = 0; form < 6; form++) {
			size_t n = len[k], elen, end[4] = {0};
			uint64_t a[4] = {0};

			if (!mc_mine("length %zu form %d", n, form))
				continue;
			mc_tick();
			char keep = lit[n];
			lit[n] = 0;
			switch (form) {
			case 0: /* a long argument */
				sprintf(fmt, "%%s");
				a[0] = S(lit);
				elen = (size_t) sprintf(exp, "%s", lit);
				break;
			case 1: /* a long text */
				sprintf(fmt, "%s", lit);
				elen = (size_t) sprintf(exp, "%s", lit);
				break;
			case 2:
				sprintf(fmt, "<%%s>%%d");
				a[0] = S(lit);
				a[1] = (uint64_t) -12345;
				elen = (size_t) sprintf(exp, "<%s>-12345", lit);
				end[0] = n + 1;
				break;
			case 3:
				sprintf(fmt, "%%d%s%%s", lit);
				a[0] = 77;
				a[1] = S("end");
				elen = (size_t) sprintf(exp, "77%send", lit);
				end[0] = n + 2;
				break;
			case 4: /* both */
				sprintf(fmt, "%s%%s%%lu", lit);
				a[0] = S(lit);
				a[1] = 5;
				elen = (size_t) sprintf(exp, "%s%s5", lit, lit);
				end[0] = n;
				break;
			default:
				sprintf(fmt, "%%s%%s%%%%%%p");
				a[0] = a[1] = S(lit);
				a[2] = 0xab;
				elen = (size_t) sprintf(exp, "%s%s%%0xab", lit, lit);
				end[0] = n;
				end[1] = 2 * n;
			}
			end[2] = elen;
			lit[n] = keep;
			for (int i = 0; i < 4; i++)
				for (int d = -2; d <= 2; d++) {
					size_t sz = end[i] + (size_t) d;
					if (sz > sizeof(b))
						continue;
					lit[n] = 0;
					one_size(fmt, a, exp, elen, sz);
					lit[n] = keep;
				}
			lit[n] = 0;
			one_size(fmt, a, exp, elen, sizeof(b) - 1);
			for (int d = 0; d < 3; d++) {
				size_t sz = d ? elen + 2 - (size_t) d : sizeof(b), w = elen < sz - 1 ? elen : sz - 1;
				nout = 0;
				sc_signal_log(19, b, sz, fmt, a[0], a[1], a[2]);
				MC_CHECK(nout == w && !memcmp(out, exp, w) && out_fd == 19, "log", "%zu bytes logged of %zu", nout, w);
			}
			lit[n] = keep;
			mc_distinct_add(exp, elen);
		}
}

/* more conversions than there are registers for arguments, of mixed widths */
static void many(void)
{
	char b[600], e[600];

	if (!mc_mine("many conversions"))
		return;
	for (size_t sz = 1; sz <= sizeof(b); sz++) {
#define MANY(f) f(b, sz, "%d %s %lu %u %p %lld %d %d %s %u %llu %ld %d%%%s %d %u|%s|%d %lu %d %d %d %s", INT_MIN, "one",                \
		  ULONG_MAX, UINT_MAX, P, LLONG_MIN, -1, 2, "two", 7u, ULLONG_MAX, LONG_MIN, INT_MAX, "three", 0, 0u, "", 9, 10ul, \
		  11, 12, 13, "last")
		void *P = (void *) 0x7fffdeadbeef;
		int rc, n = 0, w;
		memset(b, 'Z', sizeof(b));
		rc = MANY(sc_signal_snprintf);
		{
			char *keep = b;
			size_t ksz = sz;
			(void) keep;
			{
				char *b = e;
				size_t sz = sizeof(e);
				n = MANY(snprintf);
			}
			sz = ksz;
		}
		w = n < (int) sz - 1 ? n : (int) sz - 1;
		MC_CHECK(rc == w && !memcmp(b, e, (size_t) w) && !b[w], "many", "%d instead of %d: %.*s", rc, w, w, b);
		MC_CHECK(sz == sizeof(b) || b[sz] == 'Z', "over", "wrote beyond %zu bytes", sz);
		mc_evals++;
	}
}

int main(int argc, char **argv)
{
	const struct tok *t[4];

	mc_init(argc, argv);
	if (mc_mine("empty"))
		sequence(t, 0, true);
	longs();
	many();
	for (int i = 0; i < NTOK; i++) {
		t[0] = &toks[i];
		if (!mc_mine("formats starting with %d", i))
			continue;
		sequence(t, 1, true);
		for (int j = 0; j < NTOK; j++) {
			t[1] = &toks[j];
			sequence(t, 2, true);
			for (int k = 0; k < NTOK; k++) {
				t[2] = &toks[k];
				sequence(t, 3, mc_thorough);
				if (!mc_thorough)
					continue;
				for (int l = 0; l < NTOK; l++) {
					t[3] = &toks[l];
					sequence(t, 4, false);
				}
			}
		}
	}
	mc_sample("%%p with 0x1000000000 in 0..14 bytes");
	return mc_done();
}
#else
struct call {
	const char *fmt, *exp;
	uint64_t a[4];
	size_t sz;
	bool log;
};
static const struct call calls[] = {
	{"%d|%s|%llu", "-2147483648|abc|18446744073709551615",
	 {(uint64_t) INT_MIN, S("abc"), ULLONG_MAX}, 64, false},
	{"<%p %u %ld>", "<0xdeadbeefcafe 4000000000 -9223372036854775807>",
	 {0xdeadbeefcafe, 4000000000, (uint64_t) -LONG_MAX}, 64, false},
	{"%s%%%lld", "xyz%123456789012", {S("xyz"), 123456789012}, 64, false},
	{"Recv : %s, (%d) \n", "Recv : SIGINT, (2) \n", {S("SIGINT"), 2}, 128, true},
	{"%lu %s", "77 (nul", {77, 0}, 8, false},
	{"%p%d", "0x7", {0x77777, 5}, 4, true},
};
#define NCALL ((int) (sizeof(calls) / sizeof(calls[0])))

static const struct call *inner;
static volatile int bad_inner;
static char ibuf[256];

STEP_SKIP static int perform(const struct call *c, char *b, size_t *n)
{
	int rc = 0;

	if (c->log)
		sc_signal_log(17, b, c->sz, (char *) c->fmt, c->a[0], c->a[1], c->a[2], c->a[3]);
	else
		rc = sc_signal_snprintf(b, c->sz, c->fmt, c->a[0], c->a[1], c->a[2], c->a[3]);
	*n = (size_t) rc;
	return rc;
}

/* the interrupting call, with its own record of what was written */
static void arrive(void)
{
	size_t n, keep = nout, el = strlen(inner->exp);
	char save[sizeof(out)];
	int keep_fd = out_fd;

	memcpy(save, out, keep);
	nout = 0;
	memset(ibuf, 'Y', sizeof(ibuf));
	perform(inner, ibuf, &n);
	if (memcmp(ibuf, inner->exp, el + 1))
		bad_inner = 1;
	if (inner->log ? nout != el || memcmp(out, inner->exp, el) : n != el)
		bad_inner = 2;
	memcpy(out, save, keep);
	nout = keep;
	out_fd = keep_fd;
}

STEP_SKIP static void stepped(const struct call *c, char *b, size_t *n)
{
	step_begin();
	perform(c, b, n);
	step_end();
}

static void run(const struct call *c, const struct call *in, long k)
{
	char b[256];
	size_t n = 0, el = strlen(c->exp);

	mc_tick();
	mc_evals++;
	if (mc_replaying) {
		mc_note_reset();
		mc_note("'%s' interrupted at instruction %ld by '%s'", c->fmt, k, in->fmt);
	}
	inner = in;
	bad_inner = 0;
	nout = 0;
	memset(b, 'Z', sizeof(b));
	mc_alloc_reset(0);
	step_arm(k, arrive);
	errno = 4711;
	stepped(c, b, &n);
	MC_CHECK(errno == 4711, "errno", "errno changed");
	MC_CHECK(!bad_inner, "inner", "'%s' arriving at instruction %ld of '%s' gives '%s'",
		 in->fmt, k, c->fmt, ibuf);
	MC_CHECK(!memcmp(b, c->exp, el + 1) && b[c->sz] == 'Z', "outer",
		 "'%s' interrupted at instruction %ld by '%s' gives '%.127s'", c->fmt, k, in->fmt, b);
	if (c->log)
		MC_CHECK(nout == el && !memcmp(out, c->exp, el) && out_fd == 17, "log",
			 "'%s' interrupted at instruction %ld wrote '%.*s'", c->fmt, k, (int) nout, out);
	else
		MC_CHECK(n == el, "ret", "'%s' returned %zu", c->fmt, n);
	MC_CHECK(mc_alloc_calls == 0, "alloc", "the formatter allocated memory");
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	step_install();
	for (int i = 0; i < NCALL; i++)
		for (int j = 0; j < NCALL; j++) {
			long total;
			if (!mc_mine("call %d interrupted by %d", i, j))
				continue;
			run(&calls[i], &calls[j], 0);
			total = step_count;
			MC_CHECK(total > 20, "step", "single stepping does not work");
			for (long k = 1; k <= total; k++)
				run(&calls[i], &calls[j], k);
			run(&calls[i], &calls[j], -1);
			mc_count("instruction_boundaries", (uint64_t) total);
			mc_transitions += (uint64_t) total;
			mc_distinct_add(&(int[2]){i, j}, 8);
		}
	mc_sample("'%%s' interrupted at instruction 57");
	return mc_done();
}
#endif
