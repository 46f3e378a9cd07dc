/* C17: sizes to text and back, powers of two. -DRAND: C18, the generator. */
#include "mc.h"
#include "sc.h"

#include <errno.h>
#include <stdlib.h>
#include <string.h>

#ifndef RAND
static void pow2(uint64_t v)
{
	uint64_t p = 1;
	bool is;

	while (p && p < v)
		p <<= 1;
	is = v && p == v;
	MC_CHECK(sc_is_pow2(v) == is, "is", "sc_is_pow2(%lu) is wrong", v);
	if (p) {
		uint64_t r = sc_to_pow2(v);
		MC_CHECK(r == p, "to", "sc_to_pow2(%lu) is %lu, not %lu", v, r, p);
	}
}

static const char *const unit[] = {"KB", "MB", "GB", "TB", "PB", "EB"};

static void to_size(uint64_t v, bool lens)
{
	char buf[64], *r, *e, exp[64];
	size_t n;
	int u;

	mc_tick();
	mc_evals++;
	memset(buf, 'Z', sizeof(buf));
	r = sc_bytes_to_size(buf, 32, v);
	MC_CHECK(r == buf, "size", "no text for %lu", v);
	n = strnlen(buf, 32);
	MC_CHECK(n < 32 && buf[32] == 'Z', "size", "text for %lu too long", v);
	if (v < 1024) {
		snprintf(exp, sizeof(exp), "%d B", (int) v);
		MC_CHECK(!strcmp(buf, exp), "size", "%lu is shown as %s", v, buf);
		MC_CHECK(sc_size_to_bytes(buf) == (int64_t) v, "back",
			 "'%s' is not read back as %lu", buf, v);
	} else {
		/* digits "." digit digit " " unit */
		char *dot = strchr(buf, '.');
		unsigned __int128 hundredths, shown, diff, val = v, base;

		MC_CHECK(dot && dot > buf && strlen(dot) == 6 && dot[3] == ' ', "size",
			 "%lu is shown as '%s'", v, buf);
		for (u = 0; u < 6 && strcmp(dot + 4, unit[u]); u++)
			;
		MC_CHECK(u < 6, "size", "%lu is shown as '%s'", v, buf);
		hundredths = strtoul(buf, &e, 10) * 100 + strtoul(dot + 1, NULL, 10);
		MC_CHECK(e == dot, "size", "%lu is shown as '%s'", v, buf);
		MC_CHECK(hundredths >= 100 && hundredths < 102400, "unit",
			 "%lu is shown as '%s', unit not normalized", v, buf);
		base = (unsigned __int128) 1 << (10 * (u + 1));
		shown = hundredths * base;
		val *= 100;
		diff = shown > val ? shown - val : val - shown;
		/* half of the last digit, and the bits cut by the division */
		MC_CHECK(diff * 1000 <= base * 600, "size", "%lu is shown as '%s'", v, buf);
	}
	if (!lens)
		return;
	for (size_t k = 0; k <= n + 2; k++) {
		char *b = malloc(k ? k : 1);
		r = sc_bytes_to_size(k ? b : b + 1, k, v);
		if (k > n)
			MC_CHECK(r == b && !strcmp(b, buf), "len", "%lu: wrong in %zu bytes",
				 v, k);
		else
			MC_CHECK(r == NULL, "len", "%lu: accepted in %zu bytes", v, k);
		free(b);
	}
}

static int64_t ref_bytes(const char *s)
{
	unsigned __int128 v = 0, m = 1;
	const unsigned __int128 max = INT64_MAX;
	bool neg = false;
	int n = 0;

	while (*s == ' ' || (*s >= 9 && *s <= 13))
		s++;
	if (*s == '-' || *s == '+')
		neg = *s++ == '-';
	for (; *s >= '0' && *s <= '9'; s++, n++) {
		v = v * 10 + (unsigned) (*s - '0');
		if (v > max + 1)
			v = max + 2;
	}
	if (!n || v > max || (neg && v))
		return -1;
	while (*s == ' ')
		s++;
	if (*s) {
		static const char u[] = "bkmgtpe";
		const char *p = strchr(u, *s | 32);
		if (!((*s >= 'a' && *s <= 'z') || (*s >= 'A' && *s <= 'Z')) || !p)
			return -1;
		m = (unsigned __int128) 1 << (10 * (p - u));
		s++;
		if (*s && (*s != 'b' && *s != 'B'))
			return -1;
		if (*s)
			s++;
	}
	if (*s)
		return -1;
	return v * m > max ? -1 : (int64_t) (v * m);
}

static void to_bytes(const char *s)
{
	int64_t e = ref_bytes(s), r;
	size_t n = strlen(s) + 1;
	char *c = malloc(n);

	mc_tick();
	mc_evals++;
	memcpy(c, s, n);
	errno = (int) (n % 2) * ERANGE; /* left by somebody else */
	r = sc_size_to_bytes(c);
	MC_CHECK(r == e, "bytes", "'%s' is %ld bytes, not %ld", s, r, e);
	if (e >= 0)
		mc_distinct_add(s, n);
	free(c);
}

static void strings(char *buf, int pos, int len)
{
	static const char al[] = "0189bBkKmgTpe -+.x\t";

	buf[pos] = 0;
	to_bytes(buf);
	if (pos == len)
		return;
	for (const char *c = al; *c; c++) {
		buf[pos] = *c;
		strings(buf, pos + 1, len);
	}
	buf[pos] = 0;
}

static void with_units(const char *num)
{
	static const char *const sp[] = {"", " ", "  "};
	static const char un[] = "bkmgtpeBKMGTPEx";
	static const char *const tail[] = {"", "b", "B", "bb", " ", "i"};
	char s[128];

	for (int i = 0; i < 3; i++) {
		snprintf(s, sizeof(s), "%s%s", num, sp[i]);
		to_bytes(s);
		for (int u = 0; un[u]; u++)
			for (int t = 0; t < 6; t++) {
				snprintf(s, sizeof(s), "%s%s%c%s", num, sp[i], un[u],
					 tail[t]);
				to_bytes(s);
			}
	}
}

int main(int argc, char **argv)
{
	char buf[16], num[64];

	mc_init(argc, argv);
	/* small values */
	for (uint64_t b = 0; b < 64; b++) {
		if (!mc_mine("values from %lu", b << 15))
			continue;
		for (uint64_t v = b << 15; v < (b + 1) << 15; v++) {
			pow2(v);
			to_size(v, v < 2048);
		}
	}
	/* every 12 leading bits (14 in thorough) at every position */
	for (int sh = 0; sh <= 53; sh++) {
		int bits = mc_thorough ? 14 : 12;
		if (!mc_mine("values << %d", sh))
			continue;
		for (uint64_t k = 1; k < 1u << bits; k++)
			for (int low = 0; low < 3; low++) {
				uint64_t v = k << sh;
				if (sh && low)
					v += low == 1 ? ((uint64_t) 1 << sh) - 1 : 1;
				if (v >> sh != k)
					continue;
				pow2(v);
				to_size(v, k < 4);
			}
	}
	/* around powers of two and the points where the unit changes */
	for (int sh = 10; sh < 64; sh++) {
		if (!mc_mine("around 1 << %d", sh))
			continue;
		for (int64_t d = -5000; d <= 5000; d++) {
			uint64_t p = (uint64_t) 1 << sh;
			pow2(p + (uint64_t) d);
			to_size(p + (uint64_t) d, false);
			to_size(p - p / 10240 + (uint64_t) d, false);
			to_size(p - p / 20480 + (uint64_t) d, false);
		}
	}
	if (mc_mine("largest values"))
		for (uint64_t d = 0; d < 100000; d++) {
			pow2(UINT64_MAX - d);
			to_size(UINT64_MAX - d, d < 3);
		}
	/* texts */
	for (const char *c = "0189bk -+.x\t"; *c; c++)
		for (const char *c2 = "0189bBkKmgTpe -+.x\t"; *c2; c2++)
			if (mc_mine("texts starting with %c%c", *c, *c2)) {
				buf[0] = *c;
				buf[1] = *c2;
				strings(buf, 2, mc_thorough ? 6 : 5);
			}
	for (int u = 0; u < 7; u++) {
		if (!mc_mine("limits of unit %d", u))
			continue;
		uint64_t lim = (uint64_t) INT64_MAX >> (10 * u);
		for (int64_t d = -3; d <= 3; d++) {
			snprintf(num, sizeof(num), "%lu", lim + (uint64_t) d);
			with_units(num);
			snprintf(num, sizeof(num), "-%lu", lim + (uint64_t) d);
			with_units(num);
			snprintf(num, sizeof(num), "%lu", lim * 2 + (uint64_t) d);
			with_units(num);
			snprintf(num, sizeof(num), "%lu9", lim + (uint64_t) d);
			with_units(num);
			snprintf(num, sizeof(num), "0000000000000000000000%lu",
				 lim + (uint64_t) d);
			with_units(num);
		}
	}
	if (mc_mine("short numbers")) {
		to_bytes("");
		for (int v = 0; v <= 20000; v++) {
			snprintf(num, sizeof(num), "%d", v);
			with_units(num);
		}
	}
	mc_sample("1023.95 KB and 1.00 MB around 1048524");
	return mc_done();
}
#else
/* RC4 as SQLite has it */
struct rc4 {
	uint8_t s[256], i, j;
};

static void r_init(struct rc4 *r, const uint8_t *key)
{
	uint8_t j = 0; /* carried on into the output, as in SQLite */

	for (int i = 0; i < 256; i++)
		r->s[i] = (uint8_t) i;
	for (int i = 0; i < 256; i++) {
		uint8_t t = r->s[i];
		j = (uint8_t) (j + t + key[i]);
		r->s[i] = r->s[j];
		r->s[j] = t;
	}
	r->i = 0;
	r->j = j;
}

static uint8_t r_next(struct rc4 *r)
{
	uint8_t t;

	r->i++;
	r->j = (uint8_t) (r->j + r->s[r->i]);
	t = r->s[r->i];
	r->s[r->i] = r->s[r->j];
	r->s[r->j] = t;
	return r->s[(uint8_t) (r->s[r->i] + r->s[r->j])];
}

static uint8_t key[256];
static uint8_t want[70000];
static int klen;

static void rd(struct sc_rand *r, int *pos, int n)
{
	uint8_t *b = malloc((size_t) (n > 0 ? n : 0) + 1), *p;

	b[n > 0 ? n : 0] = 0x77;
	sc_rand_read(r, b, n);
	p = want + *pos;
	if (n > 0)
		MC_CHECK(!memcmp(b, p, (size_t) n), "stream",
			 "%d bytes at position %d are wrong", n, *pos);
	MC_CHECK(b[n > 0 ? n : 0] == 0x77, "over", "wrote beyond %d bytes", n);
	if (n > 0)
		*pos += n;
	free(b);
}

static void splits(int total)
{
	static const int odd[] = {0, -1, -2147483647 - 1};
	struct sc_rand *r = malloc(sizeof(*r)), *q = malloc(sizeof(*q));
	uint8_t k2[256];

	for (unsigned m = 0; m < 1u << (total - 1); m++) {
		int pos = 0, n = 1, pq = 0;

		mc_tick();
		mc_evals++;
		memset(r, 0xA5, sizeof(*r));
		memset(q, 0x5A, sizeof(*q));
		memcpy(k2, key, 256);
		sc_rand_init(r, k2);
		MC_CHECK(!memcmp(k2, key, 256), "seed", "the seed was changed");
		memset(k2, 0, 256); /* the seed is copied */
		for (int b = 0; b < total; b++) {
			if (b == total - 1 || (m >> b & 1)) {
				rd(r, &pos, n);
				if (b == 2) { /* a second generator in between */
					sc_rand_init(q, key);
					rd(q, &pq, 5);
				}
				rd(r, &pos, odd[b % 3]);
				sc_rand_read(r, NULL, b);
				n = 0;
			}
			n++;
		}
		if (pq)
			rd(q, &pq, 9);
		mc_distinct_add(r, sizeof(*r));
	}
	free(r);
	free(q);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	for (int kind = 0; kind < 5; kind++)
		for (int a = 0; a < 256; a++) {
			struct rc4 ref;
			struct sc_rand *r;
			int pos = 0;

			if (!mc_mine("seed kind %d value %d", kind, a))
				continue;
			for (int i = 0; i < 256; i++)
				key[i] = (uint8_t) (kind == 0	? a
						    : kind == 1 ? i + a
						    : kind == 2 ? i * a
						    : kind == 3 ? (i == a) * 255
								: i * i + a * 7 + (i >> 3));
			klen = 256;
			r_init(&ref, key);
			for (size_t i = 0; i < sizeof(want); i++)
				want[i] = r_next(&ref);
			splits(mc_thorough ? 14 : 11);
			r = malloc(sizeof(*r));
			sc_rand_init(r, key);
			for (int n = 1; pos + n < (int) sizeof(want); n += 97)
				rd(r, &pos, n);
			free(r);
		}
	mc_sample("1024 ways to read 11 bytes of each of 1280 seeds");
	return mc_done();
}
#endif
