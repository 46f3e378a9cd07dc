#define _GNU_SOURCE
/* C09 (MODE 0, round trip), C11 (MODE 1, failures), C10 (MODE 2, decoding). */
#include "mc.h"
#include "sc_buf.h"

#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

enum kind { KBOOL, K8, K16, K32, K64, KDBL, KSTR, KNULL, KSTRLEN, KFMT, KBLOB,
	    KRAW, NKIND };
static const char *kname[] = {"bool", "8", "16", "32", "64", "double", "str",
			      "str(NULL)", "str_len", "fmt", "blob", "raw"};

#define MAXI 5
#define BIG 20000
static char txt[2][BIG + 8];
static unsigned char raw[2][BIG + 8];

static const uint64_t ints[2] = {0xFFEEDDCCBBAA9988ull, 0x0102030405060701ull};
static const double dbls[2] = {-0.0, 123211.323321};

static void gen(void)
{
	for (int v = 0; v < 2; v++)
		for (int i = 0; i < BIG; i++) {
			txt[v][i] = (char) ('a' + (i + v * 5) % 26);
			raw[v][i] = (unsigned char) ((i * 7 + v * 131) & 255);
		}
}

/* length specification of variable sized items */
struct opd {
	uint8_t kind, var;
	uint8_t lmode; /* 0: fixed, 1: relative to the quota, 2: to the growth boundary */
	int16_t len;
};
static const struct opd *ops;
static int nops_put;
static uint64_t init_cap;
static int prefill, is_ref, max_items;
static uint64_t limit;

static struct sc_buf obj;
static struct {
	int32_t n, err, gone;
	struct {
		uint8_t kind, var;
		uint16_t len;
	} it[MAXI];
} m;
static unsigned char refmem[256 + 64];

/* encoding of one item */
static uint64_t enc(int kind, int var, uint64_t len, unsigned char *d)
{
	uint64_t v = ints[var], n = 0;
	int w = 0;

	switch (kind) {
	case KBOOL:
		v = (uint64_t) var;
		w = 1;
		break;
	case K8:
		w = 1;
		break;
	case K16:
		w = 2;
		break;
	case K32:
		w = 4;
		break;
	case K64:
		w = 8;
		break;
	case KDBL:
		memcpy(&v, &dbls[var], 8);
		w = 8;
		break;
	case KRAW:
		memcpy(d, raw[var], len);
		return len;
	case KNULL:
		return 8; /* content is not specified */
	default:
		v = len;
		w = 8;
	}
	for (int i = 0; i < w; i++)
		d[n++] = (unsigned char) (v >> (8 * i));
	if (kind == KBLOB) {
		memcpy(d + n, raw[var], len);
		n += len;
	} else if (kind == KSTR || kind == KFMT || kind == KSTRLEN) {
		memcpy(d + n, txt[var], len);
		if (kind == KSTRLEN && var && len)
			d[n + len / 2] = 0;
		n += len;
		d[n++] = 0;
	}
	return n;
}

static unsigned char scratch[BIG * 2];

static uint64_t total(void)
{
	uint64_t t = 0;
	for (int i = 0; i < m.n; i++)
		t += enc(m.it[i].kind, m.it[i].var, m.it[i].len, scratch);
	return t;
}

static void mk(void)
{
	if (is_ref) {
		memset(refmem, 0x77, sizeof(refmem));
		obj = sc_buf_wrap(refmem + 32, init_cap, SC_BUF_REF);
	} else {
		MC_CHECK(sc_buf_init(&obj, init_cap), "init", "init failed");
	}
	if (limit)
		sc_buf_limit(&obj, limit);
	if (prefill) {
		sc_buf_put_raw(&obj, raw[0], (uint64_t) prefill);
		sc_buf_get_data(&obj, scratch, (uint64_t) prefill);
		MC_CHECK(!memcmp(scratch, raw[0], (size_t) prefill), "data",
			 "prefill differs");
	}
}

static void sys_init(void)
{
	memset(&m, 0, sizeof(m));
	memset(&obj, 0x5c, sizeof(obj));
	mk();
}

static void put(int kind, int var, uint64_t len)
{
	static char tmp[BIG + 8];
	uint64_t v = ints[var];
	uint64_t before = sc_buf_size(&obj), el = 0;

	memcpy(tmp, txt[var], len);
	tmp[len] = 0;
	switch (kind) {
	case KBOOL:
		sc_buf_put_bool(&obj, (bool) var);
		el = sc_buf_bool_len(var);
		break;
	case K8:
		sc_buf_put_8(&obj, (uint8_t) v);
		el = sc_buf_8_len((uint8_t) v);
		break;
	case K16:
		sc_buf_put_16(&obj, (uint16_t) v);
		el = sc_buf_16_len((uint16_t) v);
		break;
	case K32:
		sc_buf_put_32(&obj, (uint32_t) v);
		el = sc_buf_32_len((uint32_t) v);
		break;
	case K64:
		sc_buf_put_64(&obj, v);
		el = sc_buf_64_len(v);
		break;
	case KDBL:
		sc_buf_put_double(&obj, dbls[var]);
		el = sc_buf_double_len(dbls[var]);
		break;
	case KSTR:
		sc_buf_put_str(&obj, tmp);
		el = sc_buf_str_len(tmp);
		break;
	case KNULL:
		if (var)
			sc_buf_put_str_len(&obj, NULL, 7);
		else
			sc_buf_put_str(&obj, NULL);
		el = sc_buf_str_len(NULL);
		break;
	case KSTRLEN:
		el = sc_buf_str_len(tmp);
		tmp[len] = 'Z'; /* not terminated at len */
		if (var && len)
			tmp[len / 2] = 0; /* as many bytes as asked for */
		sc_buf_put_str_len(&obj, tmp, len);
		break;
	case KFMT:
		if (len >= 2 && len < 100) {
			char c = tmp[len - 1];
			tmp[len - 1] = 0;
			sc_buf_put_fmt(&obj, "%s%c", tmp, c);
			tmp[len - 1] = c;
		} else {
			sc_buf_put_fmt(&obj, "%s", tmp);
		}
		el = sc_buf_str_len(tmp);
		break;
	case KBLOB:
		sc_buf_put_blob(&obj, raw[var], len);
		el = sc_buf_blob_len(raw[var], len);
		break;
	case KRAW:
		sc_buf_put_raw(&obj, raw[var], len);
		el = len;
		break;
	}
	if (sc_buf_valid(&obj))
		MC_CHECK(sc_buf_size(&obj) - before == el, "enc-len",
			 "put_%s added %llu bytes, its encoded length is %llu",
			 kname[kind],
			 (unsigned long long) (sc_buf_size(&obj) - before),
			 (unsigned long long) el);
}

/* reads the next item and compares */
static void get(int kind, int var, uint64_t len)
{
	uint64_t v = ints[var], r = 0, e = 0;
	const char *s;
	unsigned char *p;

	switch (kind) {
	case KBOOL:
		r = sc_buf_get_bool(&obj);
		e = (uint64_t) var;
		break;
	case K8:
		r = sc_buf_get_8(&obj);
		e = (uint8_t) v;
		break;
	case K16:
		r = sc_buf_get_16(&obj);
		e = (uint16_t) v;
		break;
	case K32:
		r = sc_buf_get_32(&obj);
		e = (uint32_t) v;
		break;
	case K64:
		r = sc_buf_get_64(&obj);
		e = v;
		break;
	case KDBL: {
		double d = sc_buf_get_double(&obj);
		memcpy(&r, &d, 8);
		memcpy(&e, &dbls[var], 8);
		break;
	}
	case KNULL:
		s = sc_buf_get_str(&obj);
		MC_CHECK(!s, "value", "get_str of a NULL string is not NULL");
		break;
	case KSTR:
	case KSTRLEN:
	case KFMT:
		s = sc_buf_get_str(&obj);
		if (s && kind == KSTRLEN && var && len) {
			enc(kind, var, len, scratch);
			MC_CHECK(!memcmp(s, scratch + 8, len + 1), "value",
				 "get_str after put_str_len of %llu bytes with a zero "
				 "byte among them returned other bytes", (unsigned long long) len);
			break;
		}
		MC_CHECK(s && strlen(s) == len && !memcmp(s, txt[var], len),
			 "value", "get_str after put_%s(length %llu) %s",
			 kname[kind], (unsigned long long) len,
			 s ? "returned another string" : "returned NULL");
		break;
	case KBLOB:
		r = sc_buf_get_64(&obj);
		MC_CHECK(r == len, "value", "blob length %llu, expected %llu",
			 (unsigned long long) r, (unsigned long long) len);
		r = 0;
		p = sc_buf_get_blob(&obj, len);
		MC_CHECK(len == 0 || (p && !memcmp(p, raw[var], len)), "value",
			 "blob content differs");
		break;
	case KRAW:
		memset(scratch, 0xEE, len + 1);
		sc_buf_get_data(&obj, scratch, len);
		MC_CHECK(!memcmp(scratch, raw[var], len) &&
				 scratch[len] == 0xEE,
			 "value", "raw content differs");
		break;
	}
	MC_CHECK(r == e, "value", "get_%s returned %llx, expected %llx",
		 kname[kind], (unsigned long long) r, (unsigned long long) e);
	MC_CHECK(sc_buf_valid(&obj), "valid", "invalid after get_%s",
		 kname[kind]);
}

static void pop_front(void)
{
	memmove(&m.it[0], &m.it[1], sizeof(m.it[0]) * (MAXI - 1));
	memset(&m.it[MAXI - 1], 0, sizeof(m.it[0]));
	m.n--;
}

static bool can_fail(uint64_t cap, uint64_t quota, uint64_t need)
{
	if (mc_alloc_failed)
		return true;
	if (need <= quota)
		return false;
	if (is_ref)
		return true;
	return limit && cap + need + 4096 > limit;
}

static void bounds_ok(void)
{
	uint64_t cap = sc_buf_cap(&obj), w = sc_buf_wpos(&obj);

	MC_CHECK(w <= cap && sc_buf_rpos(&obj) <= w, "pos",
		 "rpos %llu, wpos %llu, cap %llu",
		 (unsigned long long) sc_buf_rpos(&obj),
		 (unsigned long long) w, (unsigned long long) cap);
	MC_CHECK(sc_buf_quota(&obj) == cap - w, "pos", "quota");
	MC_CHECK(sc_buf_size(&obj) == w - sc_buf_rpos(&obj), "pos", "size");
	if (is_ref) {
		MC_CHECK(cap == init_cap, "ref-cap",
			 "capacity of a wrapped buffer changed");
		MC_CHECK(sc_buf_at(&obj, 0) == refmem + 32, "ref-mem",
			 "wrapped memory replaced");
		for (int i = 0; i < 32; i++)
			MC_CHECK(refmem[i] == 0x77 &&
					 refmem[32 + init_cap + i] == 0x77,
				 "ref-overflow",
				 "memory around the wrapped buffer written");
	} else if (cap) {
		MC_CHECK(mc_heap_owns(sc_buf_at(&obj, 0), cap), "cap",
			 "capacity %llu is more than the memory owned",
			 (unsigned long long) cap);
	}
	if (limit)
		MC_CHECK(cap <= (limit > init_cap ? limit : init_cap), "limit",
			 "capacity %llu exceeds limit %llu",
			 (unsigned long long) cap, (unsigned long long) limit);
}

static uint64_t need_of(const struct opd *o, uint64_t *len)
{
	int64_t fix = o->kind == KBLOB ? 8 : o->kind == KRAW ? 0 : 9;
	int64_t l = o->len;
	uint64_t cap = sc_buf_cap(&obj), q = sc_buf_quota(&obj);

	if (o->lmode == 1) {
		l = (int64_t) q - fix + o->len;
	} else if (o->lmode == 2) {
		/* cap + (need - 1) a multiple of 4096 */
		l = (int64_t) ((cap / 4096 + 1) * 4096 - cap) - fix + o->len;
		if (l + fix <= (int64_t) q)
			l += 4096;
	}
	if (l < 0 || l > 9000)
		return UINT64_MAX;
	*len = (uint64_t) l;
	if (o->kind < KSTR || o->kind == KNULL) {
		*len = 0;
		return enc(o->kind, o->var, 0, scratch);
	}
	return (uint64_t) (l + fix);
}

static void failed(const char *what, uint64_t cap, uint64_t q, uint64_t need)
{
	MC_CHECK(can_fail(cap, q, need), "oom-spurious",
		 "%s of %llu bytes failed: capacity %llu, free %llu", what,
		 (unsigned long long) need, (unsigned long long) cap,
		 (unsigned long long) q);
	m.err = 1;
	m.n = 0;
	memset(m.it, 0, sizeof(m.it));
}

static void all_zero(void)
{
	unsigned char d[4] = {1, 2, 3, 4};

	MC_CHECK(!sc_buf_valid(&obj), "sticky", "error forgotten");
	MC_CHECK(!sc_buf_get_8(&obj) && !sc_buf_get_16(&obj) &&
			 !sc_buf_get_32(&obj) && !sc_buf_get_64(&obj) &&
			 !sc_buf_get_bool(&obj) && sc_buf_get_double(&obj) == 0,
		 "err-read", "an invalid buffer returned data");
	MC_CHECK(!sc_buf_peek_8(&obj) && !sc_buf_peek_16(&obj) &&
			 !sc_buf_peek_32(&obj) && !sc_buf_peek_64(&obj),
		 "err-read", "an invalid buffer returned data");
	MC_CHECK(!sc_buf_get_str(&obj), "err-read",
		 "an invalid buffer returned a string");
	MC_CHECK(!sc_buf_get_blob(&obj, 1) && !sc_buf_get_blob(&obj, 0), "err-read",
		 "an invalid buffer returned a blob");
	MC_CHECK(!sc_buf_peek_8_at(&obj, 0) && !sc_buf_peek_64_at(&obj, 0) &&
			 !sc_buf_peek_data(&obj, 0, d, 2) && !d[0] && !d[1],
		 "err-read", "an invalid buffer returned data");
	memset(d, 7, 3);
	sc_buf_get_data(&obj, d, 3);
	MC_CHECK(!d[0] && !d[1] && !d[2] && d[3] == 4, "err-read",
		 "an invalid buffer returned data");
	MC_CHECK(!sc_buf_valid(&obj), "sticky", "error forgotten");
}

static bool apply(int op)
{
	static const uint64_t sh[] = {0, 1, 20, 4096, 4097, 8192};
	static const uint64_t rs[] = {1, 30, 5000};
	uint64_t cap = sc_buf_cap(&obj), q = sc_buf_quota(&obj), need, len = 0;

	if (op < nops_put) {
		const struct opd *o = &ops[op];

		if (m.n >= max_items)
			return false;
		need = need_of(o, &len);
		if (need == UINT64_MAX)
			return false;
		put(o->kind, o->var, len);
		if (m.err) {
			MC_CHECK(!sc_buf_valid(&obj), "sticky",
				 "valid again after a put");
			return true;
		}
		if (!sc_buf_valid(&obj)) {
			failed("put", cap, q, need);
			return true;
		}
		MC_CHECK(!is_ref || need <= q, "ref-put",
			 "put of %llu bytes into %llu succeeded",
			 (unsigned long long) need, (unsigned long long) q);
		m.it[m.n].kind = o->kind;
		m.it[m.n].var = o->var;
		m.it[m.n++].len = (uint16_t) len;
		return true;
	}
	op -= nops_put;
	if (op == 0) {
		if (m.err) {
			all_zero();
			return true;
		}
		if (!m.n)
			return false;
		get(m.it[0].kind, m.it[0].var, m.it[0].len);
		pop_front();
		return true;
	}
	if (op == 1) {
		sc_buf_clear(&obj);
		memset(&m, 0, sizeof(m));
		MC_CHECK(sc_buf_valid(&obj) && !sc_buf_size(&obj), "clear",
			 "not empty and valid after clear");
		return true;
	}
	if (op == 2) {
		sc_buf_term(&obj);
		MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		memset(&m, 0, sizeof(m));
		if (is_ref) {
			mk();
			return true;
		}
		if (!sc_buf_init(&obj, init_cap)) {
			MC_CHECK(mc_alloc_failed > 0, "init", "init failed");
			sc_buf_term(&obj);
			mc_alloc_reset(0);
			MC_CHECK(sc_buf_init(&obj, init_cap), "init",
				 "init failed");
		}
		if (limit)
			sc_buf_limit(&obj, limit);
		return true;
	}
	if (op == 3) {
		sc_buf_compact(&obj);
		MC_CHECK(!sc_buf_rpos(&obj), "compact", "rpos after compact");
		return true;
	}
	op -= 4;
	if (op < 6) {
		bool r = sc_buf_shrink(&obj, sh[op]);
		bool spare;
		spare = cap >= 4096 + sh[op];
		MC_CHECK(sc_buf_cap(&obj) <= cap, "shrink-grow",
			 "shrink(%llu) grew the capacity from %llu to %llu",
			 (unsigned long long) sh[op], (unsigned long long) cap,
			 (unsigned long long) sc_buf_cap(&obj));
		if (!r) {
			MC_CHECK(mc_alloc_failed, "oom-spurious",
				 "shrink failed");
			MC_CHECK(!sc_buf_valid(&obj), "oom-flag",
				 "shrink failed but the buffer is valid");
			failed("shrink", cap, 0, 1);
		} else if (!m.err) {
			MC_CHECK(sc_buf_valid(&obj), "valid",
				 "shrink succeeded, buffer invalid");
		}
		(void) spare;
		return true;
	}
	op -= 6;
	if (op < 3) {
		bool r = sc_buf_reserve(&obj, rs[op]);
		if (!r) {
			MC_CHECK(!sc_buf_valid(&obj), "oom-flag",
				 "reserve failed but the buffer is valid");
			if (!m.err)
				failed("reserve", cap, q, rs[op]);
		} else {
			MC_CHECK(sc_buf_quota(&obj) >= rs[op], "reserve",
				 "reserve(%llu) left %llu bytes",
				 (unsigned long long) rs[op],
				 (unsigned long long) sc_buf_quota(&obj));
			MC_CHECK(m.err || sc_buf_valid(&obj), "valid",
				 "reserve succeeded, buffer invalid");
		}
		return true;
	}
	op -= 3;
	if (op == 0) { /* write through the raw pointer */
		uint64_t n = 5;
		if (m.err || m.n >= max_items || q < n)
			return false;
		memcpy(sc_buf_wbuf(&obj), raw[1], n);
		sc_buf_mark_write(&obj, n);
		m.it[m.n].kind = KRAW;
		m.it[m.n].var = 1;
		m.it[m.n++].len = (uint16_t) n;
		return true;
	}
	if (op == 1) { /* skip the first item through the raw pointer */
		if (m.err || !m.n)
			return false;
		sc_buf_mark_read(&obj, enc(m.it[0].kind, m.it[0].var,
					   m.it[0].len, scratch));
		pop_front();
		return true;
	}
	return false;
}
#define NOPS_REST 15

static void check(void)
{
	static unsigned char exp[BIG * 2];
	uint64_t n = 0, pos, w;

	bounds_ok();
	if (m.err) {
		all_zero();
		bounds_ok();
		sc_buf_clear(&obj);
		MC_CHECK(sc_buf_valid(&obj) && sc_buf_size(&obj) == 0, "clear",
			 "not usable after clear");
		mc_alloc_reset(0);
		if (sc_buf_cap(&obj) >= 4) {
			sc_buf_put_32(&obj, 0xfeedface);
			MC_CHECK(sc_buf_get_32(&obj) == 0xfeedface, "clear",
				 "not usable after clear");
		}
		return;
	}
	MC_CHECK(sc_buf_valid(&obj), "valid", "invalid without a reason");
	for (int i = 0; i < m.n; i++) {
		uint64_t l = enc(m.it[i].kind, m.it[i].var, m.it[i].len,
				 exp + n);
		if (m.it[i].kind == KNULL)
			memcpy(exp + n, (char *) sc_buf_rbuf(&obj) + n, 8);
		n += l;
	}
	MC_CHECK(sc_buf_size(&obj) == n, "size", "size is %llu, expected %llu",
		 (unsigned long long) sc_buf_size(&obj),
		 (unsigned long long) n);
	MC_CHECK(n == 0 || !memcmp(sc_buf_rbuf(&obj), exp, n), "data",
		 "unread bytes differ from what was written");
	/* peeks do not move anything */
	pos = sc_buf_rpos(&obj);
	w = sc_buf_wpos(&obj);
	for (uint64_t i = 0; i < n; i++) {
		uint64_t e = 0, left = n - i;
		if (i == 24 && n > 48)
			i = n - 24;
		left = n - i;
		for (int k = 0; k < 8 && i + (uint64_t) k < n; k++)
			e |= (uint64_t) exp[i + (uint64_t) k] << (8 * k);
		MC_CHECK(sc_buf_peek_8_at(&obj, pos + i) == (uint8_t) e, "peek",
			 "peek_8_at");
		if (left >= 2)
			MC_CHECK(sc_buf_peek_16_at(&obj, pos + i) ==
					 (uint16_t) e, "peek", "peek_16_at");
		if (left >= 4)
			MC_CHECK(sc_buf_peek_32_at(&obj, pos + i) ==
					 (uint32_t) e, "peek", "peek_32_at");
		if (left >= 8)
			MC_CHECK(sc_buf_peek_64_at(&obj, pos + i) == e, "peek",
				 "peek_64_at");
		if (i == 0) {
			MC_CHECK(sc_buf_peek_8(&obj) == (uint8_t) e, "peek",
				 "peek_8");
			if (n >= 2)
				MC_CHECK(sc_buf_peek_16(&obj) == (uint16_t) e,
					 "peek", "peek_16");
			if (n >= 4)
				MC_CHECK(sc_buf_peek_32(&obj) == (uint32_t) e,
					 "peek", "peek_32");
			if (n >= 8)
				MC_CHECK(sc_buf_peek_64(&obj) == e, "peek",
					 "peek_64");
		}
		if (left >= 3) {
			unsigned char d[4] = {0, 0, 0, 9};
			MC_CHECK(sc_buf_peek_data(&obj, pos + i, d, 3) == 3 &&
					 !memcmp(d, exp + i, 3) && d[3] == 9,
				 "peek", "peek_data");
		}
	}
	MC_CHECK(sc_buf_rpos(&obj) == pos && sc_buf_wpos(&obj) == w &&
			 sc_buf_valid(&obj),
		 "peek", "peeking changed the buffer");
	MC_CHECK(sc_buf_at(&obj, pos) == sc_buf_rbuf(&obj), "peek", "at/rbuf");
	/* overwrite in place and back */
	if (n >= 8) {
		uint64_t at[3] = {pos, pos + n - 8, pos + (n - 8) / 2};
		for (int k = 0; k < 3; k++) {
			unsigned char *p = sc_buf_at(&obj, at[k]);
			unsigned char old[8], e[8];
			memcpy(old, p, 8);
			memcpy(e, p, 8);
			sc_buf_set_8_at(&obj, at[k], 0xF1);
			e[0] = 0xF1;
			MC_CHECK(!memcmp(p, e, 8), "set", "set_8_at");
			sc_buf_set_16_at(&obj, at[k], 0xA1B2);
			e[0] = 0xB2, e[1] = 0xA1;
			MC_CHECK(!memcmp(p, e, 8), "set", "set_16_at");
			sc_buf_set_32_at(&obj, at[k], 0xC1D2E3F4);
			e[0] = 0xF4, e[1] = 0xE3, e[2] = 0xD2, e[3] = 0xC1;
			MC_CHECK(!memcmp(p, e, 8), "set", "set_32_at");
			sc_buf_set_64_at(&obj, at[k], 0x8182838485868788ull);
			for (int j = 0; j < 8; j++)
				e[j] = (unsigned char) (0x88 - j);
			MC_CHECK(!memcmp(p, e, 8), "set", "set_64_at");
			MC_CHECK(sc_buf_set_data(&obj, at[k], old, 8) == 8,
				 "set", "set_data");
		}
		MC_CHECK(!memcmp(sc_buf_rbuf(&obj), exp, n), "set",
			 "set changed other bytes");
	}
	if (sc_buf_quota(&obj) >= 8) {
		unsigned char *p = sc_buf_wbuf(&obj);
		sc_buf_set_64(&obj, 0x0807060504030201ull);
		for (int j = 0; j < 8; j++)
			MC_CHECK(p[j] == j + 1, "set", "set_64");
		sc_buf_set_32(&obj, 0x11223344);
		MC_CHECK(p[0] == 0x44 && p[3] == 0x11 && p[4] == 5, "set",
			 "set_32");
		sc_buf_set_16(&obj, 0x5566);
		MC_CHECK(p[0] == 0x66 && p[1] == 0x55 && p[2] == 0x22, "set",
			 "set_16");
		sc_buf_set_8(&obj, 0x77);
		MC_CHECK(p[0] == 0x77 && p[1] == 0x55, "set", "set_8");
	}
	MC_CHECK(sc_buf_wpos(&obj) == w && sc_buf_valid(&obj), "set",
		 "setting moved the write position");
	while (m.n) {
		get(m.it[0].kind, m.it[0].var, m.it[0].len);
		pop_front();
	}
	MC_CHECK(sc_buf_size(&obj) == 0, "size", "not empty after all gets");
	MC_CHECK(sc_buf_get_8(&obj) == 0 && !sc_buf_valid(&obj), "underflow",
		 "reading beyond the end is not reported");
	sc_buf_clear(&obj);
	MC_CHECK(sc_buf_valid(&obj), "clear", "clear");
}

static void term(void)
{
	sc_buf_term(&obj);
	if (is_ref)
		sc_buf_term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	static const char *o[] = {"get", "clear", "term+init", "compact",
				  "shrink(0)", "shrink(1)", "shrink(20)",
				  "shrink(4096)", "shrink(4097)",
				  "shrink(8192)", "reserve(1)", "reserve(30)",
				  "reserve(5000)", "wbuf+mark_write(5)",
				  "mark_read(item)"};
	static const char *lm[] = {"", "free space", "growth boundary"};
	if (op < nops_put)
		snprintf(b, n, "put_%s(v%d,len %s%+d)", kname[ops[op].kind],
			 ops[op].var, lm[ops[op].lmode], ops[op].len);
	else
		snprintf(b, n, "%s", o[op - nops_put]);
}

/* ---- text mode --------------------------------------------------------- */
static struct {
	int32_t len, any, err;
} tm;
static const struct opd tops[] = {
	{0, 0, 0, 0},	{0, 0, 0, 1},	{0, 0, 0, 3}, {0, 0, 1, -2},
	{0, 0, 1, -1},	{0, 0, 1, 0},	{0, 0, 1, 1}, {0, 0, 1, 2},
	{0, 0, 2, -1},	{0, 0, 2, 0},	{0, 0, 2, 1},
};
#define NT ((int) (sizeof(tops) / sizeof(tops[0])))
static void t_init(void)
{
	memset(&tm, 0, sizeof(tm));
	mk();
}
static bool t_apply(int op)
{
	static char tmp[BIG];
	uint64_t cap = sc_buf_cap(&obj), q = sc_buf_quota(&obj), need;
	int64_t l;

	if (op < NT) {
		l = tops[op].len;
		if (tops[op].lmode == 1)
			l += (int64_t) q;
		if (tops[op].lmode == 2)
			l += (int64_t) ((cap / 4096 + 1) * 4096 - cap);
		if (l < 0 || l + tm.len > 9000)
			return false;
		if (tm.err)
			return false;
		for (int64_t i = 0; i < l; i++)
			tmp[i] = (char) ('a' + (tm.len + i) % 26);
		tmp[l] = 0;
		if (l > 1) {
			char c = tmp[l - 1];
			tmp[l - 1] = 0;
			sc_buf_put_text(&obj, "%s%c", tmp, c);
		} else {
			sc_buf_put_text(&obj, "%s", tmp);
		}
		need = (uint64_t) l + (tm.any ? 0 : 1);
		if (!sc_buf_valid(&obj)) {
			MC_CHECK(can_fail(cap, q, need), "oom-spurious",
				 "put_text of %lld bytes failed, %llu free",
				 (long long) l, (unsigned long long) q);
			memset(&tm, 0, sizeof(tm));
			tm.err = 1;
			return true;
		}
		tm.any = 1;
		tm.len += (int32_t) l;
		return true;
	}
	switch (op - NT) {
	case 0:
		sc_buf_clear(&obj);
		memset(&tm, 0, sizeof(tm));
		return true;
	case 1:
		return !tm.err && (sc_buf_reserve(&obj, 10) || ({ tm.err = 1; true; }));
	case 2:
		sc_buf_compact(&obj);
		return true;
	case 3: /* consume the whole text */
		if (tm.err || !tm.any)
			return false;
		sc_buf_mark_read(&obj, (uint64_t) tm.len + 1);
		memset(&tm, 0, sizeof(tm));
		return true;
	case 4: /* consume a part of the text */
		if (tm.err || tm.len < 26)
			return false;
		sc_buf_mark_read(&obj, 26);
		tm.len -= 26;
		return true;
	}
	return false;
}
static void t_check(void)
{
	const char *s = sc_buf_rbuf(&obj);
	if (tm.err) {
		if (sc_buf_valid(&obj))
			mc_fail("sticky", "valid after a failed call");
		MC_CHECK(sc_buf_size(&obj) <= sc_buf_cap(&obj), "pos",
			 "size %llu of an invalid buffer exceeds its capacity",
			 (unsigned long long) sc_buf_size(&obj));
		return;
	}
	bounds_ok();
	MC_CHECK(sc_buf_valid(&obj), "valid", "invalid without a reason");
	MC_CHECK(sc_buf_size(&obj) == (uint64_t) (tm.any ? tm.len + 1 : 0),
		 "size", "text size %llu, expected %d",
		 (unsigned long long) sc_buf_size(&obj), tm.len + 1);
	if (tm.any) {
		MC_CHECK(strlen(s) == (size_t) tm.len, "text",
			 "text length %zu, expected %d", strlen(s), tm.len);
		for (int i = 0; i < tm.len; i++)
			MC_CHECK(s[i] == 'a' + i % 26, "text",
				 "text differs at %d", i);
	}
}
static void t_opname(int op, char *b, size_t n)
{
	static const char *o[] = {"clear", "reserve(10)", "compact",
				  "consume all", "consume 26"};
	static const char *lm[] = {"", "free space", "growth boundary"};
	if (op < NT)
		snprintf(b, n, "put_text(len %s%+d)", lm[tops[op].lmode],
			 tops[op].len);
	else
		snprintf(b, n, "%s", o[op - NT]);
}

/* ---- move -------------------------------------------------------------- */
static void move_run(void)
{
	struct sc_buf s, d;
	unsigned char sm[16], dm[16], es[64];
	int n = mc_choose(7), r = mc_choose(n + 1), c = mc_choose(9),
	    w = mc_choose(c + 1), dr = mc_choose(w + 1), bad = mc_choose(3);
	int heap = mc_choose(2), moved, twice;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_note("src: %d bytes, %d read; dest: capacity %d, %d written, %d "
		"read%s%s\n", n, r, c, w, dr, bad == 1 ? ", dest invalid" : "",
		bad == 2 ? ", src invalid" : "");
	memcpy(sm, raw[0], 16);
	memcpy(dm, raw[1], 16);
	s = sc_buf_wrap(sm, (uint64_t) n, SC_BUF_READ);
	sc_buf_mark_read(&s, (uint64_t) r);
	if (heap) {
		MC_CHECK(sc_buf_init(&d, (uint64_t) c), "init", "init");
		sc_buf_put_raw(&d, raw[1], (uint64_t) w);
	} else {
		d = sc_buf_wrap(dm, (uint64_t) c, SC_BUF_REF);
		sc_buf_mark_write(&d, (uint64_t) w);
	}
	sc_buf_mark_read(&d, (uint64_t) dr);
	if (bad == 1)
		sc_buf_set_wpos(&d, 10000);
	if (bad == 2)
		sc_buf_set_wpos(&s, 10000);
	for (twice = 0; twice < 2; twice++) {
		uint64_t ss = sc_buf_size(&s), ds = sc_buf_size(&d);
		uint64_t q = sc_buf_quota(&d), k;

		moved = (int) (q < ss ? q : ss);
		if (ds)
			memcpy(es, sc_buf_rbuf(&d), ds);
		if (moved)
			memcpy(es + ds, sc_buf_rbuf(&s), (size_t) moved);
		sc_buf_move(&d, &s);
		if (bad == 2) {
			/* content of an invalid source is not specified */
			MC_CHECK(sc_buf_size(&d) - ds == ss - sc_buf_size(&s),
				 "move-lost", "bytes lost by move");
			continue;
		}
		if (bad == 1) {
			MC_CHECK(sc_buf_size(&s) == ss &&
					 sc_buf_size(&d) == ds,
				 "move-lost",
				 "move to an invalid buffer: source went from "
				 "%llu to %llu bytes, dest from %llu to %llu",
				 (unsigned long long) ss,
				 (unsigned long long) sc_buf_size(&s),
				 (unsigned long long) ds,
				 (unsigned long long) sc_buf_size(&d));
			continue;
		}
		k = (uint64_t) moved;
		MC_CHECK(sc_buf_size(&s) == ss - k && sc_buf_size(&d) == ds + k,
			 "move-count", "moved %llu, expected %llu",
			 (unsigned long long) (ss - sc_buf_size(&s)),
			 (unsigned long long) k);
		MC_CHECK(sc_buf_cap(&d) == (uint64_t) c, "move-grow",
			 "move changed the capacity");
		MC_CHECK(!(ds + k) || !memcmp(sc_buf_rbuf(&d), es, ds + k),
			 "move-data", "moved bytes differ");
		MC_CHECK(sc_buf_valid(&d) && sc_buf_valid(&s), "valid",
			 "invalid after move");
		mc_distinct_add(es, ds + k);
	}
	MC_CHECK(!memcmp(sm, raw[0], 16), "move-src", "source changed");
	sc_buf_term(&d);
	sc_buf_term(&s);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}

/* notes are only made for replays: they cost more than the calls */
#define mc_note(...) (mc_replaying ? mc_note(__VA_ARGS__) : (void) 0)

/* ---- decoding arbitrary bytes ------------------------------------------ */
static int dec_depth, dec_n;
static bool dec_small; /* reduced alphabets */
static uint64_t pick_pos(uint64_t n)
{
	static const uint8_t small[] = {0, 2, 5, 10};

	switch (dec_small ? small[mc_choose(4)] : mc_choose(13)) {
	case 0:
		return 0;
	case 1:
		return 1;
	case 2:
		return n > 8 ? n - 8 : 2;
	case 3:
		return n > 4 ? n - 4 : 3;
	case 4:
		return n ? n - 1 : 4;
	case 5:
		return n;
	case 6:
		return n + 1;
	case 7:
		return UINT64_MAX;
	case 8:
		return UINT64_MAX - 1;
	case 9:
		return UINT64_MAX - 3;
	case 10:
		return UINT64_MAX - 7;
	case 11:
		return UINT64_MAX - 8;
	default:
		return 1ull << 63;
	}
}
static uint64_t pick_len(uint64_t n, uint64_t r)
{
	static const uint8_t small[] = {0, 1, 2, 6};

	switch (dec_small ? small[mc_choose(4)] : mc_choose(10)) {
	case 0:
		return 1;
	case 1:
		return n - r;
	case 2:
		return n - r + 1;
	case 3:
		return n;
	case 4:
		return UINT64_MAX;
	case 5:
		return UINT64_MAX - r;
	case 6:
		return UINT64_MAX - r + 1;
	case 7:
		return UINT64_MAX - r + 2;
	case 8:
		return 0;
	default:
		return n - r + (1ull << 63);
	}
}

static struct {
	struct sc_buf b;
	unsigned char *p;
	unsigned char sh[32]; /* expected memory */
	uint64_t n, w, r;
	bool err;
} D;

static uint64_t rd(uint64_t pos, int k)
{
	uint64_t e = 0;
	for (int i = 0; i < k; i++)
		e |= (uint64_t) D.sh[pos + (uint64_t) i] << (8 * i);
	return e;
}
static bool fits(uint64_t pos, uint64_t len, uint64_t end)
{
	return len <= end && pos <= end - len;
}

static void dec_get(int k)
{
	uint64_t v = 0, e = 0;
	bool ok = !D.err && fits(D.r, (uint64_t) k, D.w);
	if (ok)
		e = rd(D.r, k);
	switch (k) {
	case 1:
		v = sc_buf_get_8(&D.b);
		break;
	case 2:
		v = sc_buf_get_16(&D.b);
		break;
	case 4:
		v = sc_buf_get_32(&D.b);
		break;
	case 8:
		v = sc_buf_get_64(&D.b);
		break;
	}
	mc_note("get_%d = %llx; ", 8 * k, (unsigned long long) v);
	MC_CHECK(v == e, "dec-value", "get_%d returned %llx, expected %llx",
		 8 * k, (unsigned long long) v, (unsigned long long) e);
	if (ok)
		D.r += (uint64_t) k;
	else
		D.err = true;
}

static void dec_op(void)
{
	uint64_t pos, len, v = 0, e = 0;
	unsigned char tmp[40];
	const char *s;
	int k = 0;
	bool ok;

	switch (mc_choose(17)) {
	case 0:
		dec_get(1);
		break;
	case 1:
		dec_get(8);
		break;
	case 2:
		dec_get(4);
		break;
	case 3:
		dec_get(2);
		break;
	case 4: { /* string */
		uint64_t r0 = D.r;
		s = sc_buf_get_str(&D.b);
		mc_note("get_str = %s; ", s ? "string" : "NULL");
		if (s) {
			uint64_t at = (uint64_t) ((unsigned char *) s - D.p);
			MC_CHECK(!D.err && fits(r0, 8, D.w), "dec-str",
				 "string from an invalid or short buffer");
			len = rd(r0, 8);
			MC_CHECK(at == r0 + 8 && len < D.w &&
					 fits(at, len + 1, D.w),
				 "dec-str", "string of length %llu at %llu "
				 "does not lie in the %llu bytes written",
				 (unsigned long long) len,
				 (unsigned long long) at,
				 (unsigned long long) D.w);
			MC_CHECK(D.sh[at + len] == 0, "dec-str",
				 "string is not terminated at its length");
			MC_CHECK(sc_buf_rpos(&D.b) == at + len + 1, "dec-str",
				 "read position after get_str");
			D.r = at + len + 1;
		} else if (!D.err && fits(r0, 8, D.w)) {
			len = rd(r0, 8);
			bool fine = len < D.w && fits(r0 + 8, len + 1, D.w) &&
				    D.sh[r0 + 8 + len] == 0;
			MC_CHECK(!fine, "dec-str",
				 "well formed string rejected");
			if (sc_buf_valid(&D.b)) /* encoded NULL */
				MC_CHECK(len > 1ull << 63 &&
						 sc_buf_rpos(&D.b) == r0 + 8,
					 "dec-str", "NULL string at length "
					 "%llu", (unsigned long long) len);
			else
				D.err = true;
			D.r = sc_buf_rpos(&D.b);
		} else {
			D.err = true;
		}
		break;
	}
	case 5: { /* blob */
		unsigned char *b;
		len = pick_len(D.w, D.r);
		ok = len && !D.err && fits(D.r, len, D.w);
		b = sc_buf_get_blob(&D.b, len);
		mc_note("get_blob(%llu) = %s; ", (unsigned long long) len,
			b ? "pointer" : "NULL");
		if (!ok) {
			MC_CHECK(!b, "dec-blob", "blob of %llu bytes at %llu of "
				 "%llu", (unsigned long long) len,
				 (unsigned long long) D.r,
				 (unsigned long long) D.w);
			if (len)
				D.err = true;
		} else {
			MC_CHECK(b == D.p + D.r, "dec-blob", "wrong blob");
			D.r += len;
		}
		break;
	}
	case 6: /* data */
		len = pick_len(D.w, D.r);
		if (len > 30)
			mc_prune();
		memset(tmp, 0xEE, sizeof(tmp));
		ok = !D.err && fits(D.r, len, D.w);
		sc_buf_get_data(&D.b, tmp, len);
		mc_note("get_data(%llu); ", (unsigned long long) len);
		for (uint64_t i = 0; i < len; i++)
			MC_CHECK(tmp[i] == (ok ? D.sh[D.r + i] : 0),
				 "dec-data", "get_data byte %llu",
				 (unsigned long long) i);
		MC_CHECK(tmp[len] == 0xEE, "dec-data", "get_data wrote more");
		if (ok)
			D.r += len;
		else
			D.err = true;
		break;
	case 7: /* peek at */
		k = dec_small ? 8 : 1 << mc_choose(4);
		pos = pick_pos(D.w);
		ok = !D.err && fits(pos, (uint64_t) k, D.w);
		e = ok ? rd(pos, k) : 0;
		v = k == 1   ? sc_buf_peek_8_at(&D.b, pos)
		    : k == 2 ? sc_buf_peek_16_at(&D.b, pos)
		    : k == 4 ? sc_buf_peek_32_at(&D.b, pos)
			     : sc_buf_peek_64_at(&D.b, pos);
		mc_note("peek_%d_at(%llu) = %llx; ", 8 * k,
			(unsigned long long) pos, (unsigned long long) v);
		MC_CHECK(v == e, "dec-value", "peek_%d_at(%llu) of %llu bytes "
			 "returned %llx, expected %llx", 8 * k,
			 (unsigned long long) pos, (unsigned long long) D.w,
			 (unsigned long long) v, (unsigned long long) e);
		if (!ok)
			D.err = true;
		break;
	case 8: /* peek data */
		pos = pick_pos(D.w);
		len = (uint64_t) mc_choose(dec_small ? 2 : 4) * 4;
		memset(tmp, 0xEE, sizeof(tmp));
		ok = !D.err && fits(pos, len, D.w);
		v = sc_buf_peek_data(&D.b, pos, tmp, len);
		mc_note("peek_data(%llu,%llu); ", (unsigned long long) pos,
			(unsigned long long) len);
		MC_CHECK(v == (ok ? len : 0), "dec-data", "peek_data result");
		for (uint64_t i = 0; i < len; i++)
			MC_CHECK(tmp[i] == (ok ? D.sh[pos + i] : 0), "dec-data",
				 "peek_data byte");
		if (!ok)
			D.err = true;
		break;
	case 9: /* set at */
		k = dec_small ? 8 : 1 << mc_choose(4);
		pos = pick_pos(D.n);
		ok = !D.err && fits(pos, (uint64_t) k, D.n);
		v = 0x9192939495969798ull;
		if (k == 1)
			sc_buf_set_8_at(&D.b, pos, (uint8_t) v);
		else if (k == 2)
			sc_buf_set_16_at(&D.b, pos, (uint16_t) v);
		else if (k == 4)
			sc_buf_set_32_at(&D.b, pos, (uint32_t) v);
		else
			sc_buf_set_64_at(&D.b, pos, v);
		mc_note("set_%d_at(%llu); ", 8 * k, (unsigned long long) pos);
		if (ok)
			for (int i = 0; i < k; i++)
				D.sh[pos + (uint64_t) i] =
					(unsigned char) (v >> (8 * i));
		else
			D.err = true;
		break;
	case 10: /* set data */
		pos = pick_pos(D.n);
		len = pick_len(D.n, pos);
		if (fits(pos, len, D.n) && len > 30)
			mc_prune();
		ok = !D.err && fits(pos, len, D.n);
		v = sc_buf_set_data(&D.b, pos, raw[0], len);
		mc_note("set_data(%llu,%llu); ", (unsigned long long) pos,
			(unsigned long long) len);
		MC_CHECK(v == (ok ? len : 0), "dec-data", "set_data result");
		if (ok)
			memcpy(D.sh + pos, raw[0], len);
		else
			D.err = true;
		break;
	case 11: /* set rpos */
		pos = pick_pos(D.w);
		sc_buf_set_rpos(&D.b, pos);
		mc_note("set_rpos(%llu); ", (unsigned long long) pos);
		if (pos <= D.w)
			D.r = pos;
		else
			D.err = true;
		break;
	case 12: /* set wpos */
		pos = pick_pos(D.n);
		if (pos < D.r)
			mc_prune();
		sc_buf_set_wpos(&D.b, pos);
		mc_note("set_wpos(%llu); ", (unsigned long long) pos);
		if (pos <= D.n)
			D.w = pos;
		else
			D.err = true;
		break;
	case 13: /* put raw / reserve with any length */
		if (mc_choose(2)) {
			len = pick_len(D.n, D.w);
			ok = sc_buf_reserve(&D.b, len);
			mc_note("reserve(%llu); ", (unsigned long long) len);
			MC_CHECK(ok == fits(D.w, len, D.n), "dec-reserve",
				 "reserve(%llu) of a wrapped buffer returned "
				 "%d", (unsigned long long) len, ok);
			if (!ok)
				D.err = true;
		} else {
			sc_buf_put_32(&D.b, 0x41424344);
			mc_note("put_32; ");
			if (!D.err && fits(D.w, 4, D.n)) {
				memcpy(D.sh + D.w, "DCBA", 4);
				D.w += 4;
			} else {
				D.err = true;
			}
		}
		break;
	case 14: /* forgets the content and every error */
		sc_buf_clear(&D.b);
		mc_note("clear; ");
		D.r = D.w = 0;
		D.err = false;
		break;
	case 15: { /* compact and shrink leave what is readable */
		static const uint64_t sh[] = {0, 1, 4096, 8192, UINT64_MAX};

		k = mc_choose(6);
		v = D.w - D.r;
		if (k) {
			MC_CHECK(sc_buf_shrink(&D.b, sh[k - 1]), "dec-shrink", "shrink of wrapped memory failed");
		} else
			sc_buf_compact(&D.b);
		mc_note("%s; ", k ? "shrink" : "compact");
		MC_CHECK(sc_buf_cap(&D.b) == D.n && sc_buf_size(&D.b) == v && !sc_buf_rpos(&D.b), "dec-shrink",
			 "capacity %llu, %llu bytes after compact or shrink of %llu", (unsigned long long) sc_buf_cap(&D.b),
			 (unsigned long long) sc_buf_size(&D.b), (unsigned long long) v);
		MC_CHECK(!memcmp(D.p, D.sh + D.r, v), "dec-shrink", "compact or shrink changed the content");
		memcpy(D.sh, D.p, D.n);
		D.r = 0;
		D.w = v;
		break;
	}
	case 16: /* what is read or written where */
		if (D.n)
			MC_CHECK(sc_buf_at(&D.b, D.n / 2) == D.p + D.n / 2, "dec-at", "at()");
		MC_CHECK(sc_buf_rbuf(&D.b) == D.p + D.r && sc_buf_wbuf(&D.b) == D.p + D.w &&
			 sc_buf_quota(&D.b) == D.n - D.w && sc_buf_size(&D.b) == D.w - D.r, "dec-at",
			 "rbuf, wbuf, quota or size");
		break;
	}
	MC_CHECK(sc_buf_valid(&D.b) == !D.err, "dec-valid",
		 "valid() is %d, expected %d", sc_buf_valid(&D.b), !D.err);
	MC_CHECK(sc_buf_rpos(&D.b) == D.r || D.err, "dec-pos",
		 "rpos is %llu, expected %llu",
		 (unsigned long long) sc_buf_rpos(&D.b),
		 (unsigned long long) D.r);
	MC_CHECK(sc_buf_wpos(&D.b) == D.w, "dec-pos", "wpos is %llu, expected "
		 "%llu", (unsigned long long) sc_buf_wpos(&D.b),
		 (unsigned long long) D.w);
	MC_CHECK(sc_buf_rpos(&D.b) <= sc_buf_wpos(&D.b), "dec-pos",
		 "rpos > wpos");
	D.r = sc_buf_rpos(&D.b);
	MC_CHECK(!memcmp(D.p, D.sh, D.n), "dec-mem",
		 "memory differs from what was written");
}

static void dec_run(void)
{
	static const uint64_t lens[] = {0, 1, 2, 5, 7, 8, 9, 0xffffffffull,
		1ull << 63, UINT64_MAX - 4097, UINT64_MAX - 4096,
		UINT64_MAX - 4095, UINT64_MAX - 17, UINT64_MAX - 16,
		UINT64_MAX - 9, UINT64_MAX - 8, UINT64_MAX - 7,
		UINT64_MAX - 1, UINT64_MAX};
	static const uint8_t small[] = {1, 5, 6, 10, 14, 15};
	int flag, i;
	uint64_t n = (uint64_t) dec_n, at;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_note_reset();
	memset(&D, 0, sizeof(D));
	D.n = n;
	at = n > 12 ? 3u * (unsigned) mc_choose(2) : 0; /* of the length */
	if (n >= 8) {
		uint64_t l = lens[dec_small ? small[mc_choose(6)]
						   : mc_choose(sizeof(lens) / sizeof(lens[0]))];
		for (i = 0; i < 8; i++)
			D.sh[at + (uint64_t) i] = (unsigned char) (l >> (8 * i));
		mc_note("length %llx at %d of %d; ", (unsigned long long) l,
			(int) at, dec_n);
		for (uint64_t k = at + 8; k < n && k < at + 8 + 3; k++)
			D.sh[k] = (unsigned char) (dec_small || mc_choose(2) ? 'a' : 0);
		for (uint64_t k = at + 8 + 3; k < n; k++)
			D.sh[k] = k % 2 ? 'b' : 0;
	} else {
		for (uint64_t k = 0; k < n; k++)
			D.sh[k] = mc_choose(2) ? 0xff : 0;
	}
	D.p = mc_malloc(n ? n : 1);
	memcpy(D.p, D.sh, n);
	flag = mc_choose(2);
	D.b = sc_buf_wrap(D.p, n, flag ? SC_BUF_READ : SC_BUF_REF);
	D.w = flag ? n : 0;
	if (!flag && n >= 10) {
		sc_buf_mark_write(&D.b, n - 1);
		D.w = n - 1;
	}
	if (at) {
		sc_buf_set_rpos(&D.b, at);
		D.r = at <= D.w ? at : 0;
	}
	for (i = 0; i < dec_depth; i++)
		dec_op();
	/* whatever happened, nothing but the wrapped memory was touched */
	sc_buf_term(&D.b);
	MC_CHECK(mc_live_blocks() == 1, "ref-free",
		 "wrapped memory freed or memory leaked");
	mc_distinct_add(D.sh, sizeof(D.sh));
}

/* wrapped memory of several pages is never resized, moved or freed */
static void wrap_run(void)
{
	static const uint64_t lens[] = {0, 1, 100, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 1ull << 40, UINT64_MAX};
	static const int flags[] = {SC_BUF_REF, SC_BUF_READ};
	static unsigned char want[10000];
	int flag = flags[mc_choose(2)], last = 0;
	uint64_t n = 10000, w, r;
	struct sc_buf b;
	unsigned char *p;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1 << 20;
	p = mc_malloc(n);
	for (uint64_t i = 0; i < n; i++)
		p[i] = (unsigned char) (i ^ i >> 8);
	b = sc_buf_wrap(p, n, flag);
	w = flag & SC_BUF_DATA ? n : 0;
	MC_CHECK(sc_buf_wpos(&b) == w && sc_buf_cap(&b) == n, "wrap", "positions after wrap");
	if (!w)
		sc_buf_mark_write(&b, w = (uint64_t) mc_choose(3) * 4990);
	r = (uint64_t) mc_choose(3) * (w / 2);
	sc_buf_mark_read(&b, r);
	memcpy(want, p + r, w - r);
	w -= r;
	sc_buf_compact(&b);
	mc_alloc_calls = 0;
	for (int k = 0; k < 2; k++) {
		last = mc_choose(sizeof(lens) / sizeof(lens[0]));
		mc_alloc_reset(mc_choose(2));
		MC_CHECK(sc_buf_shrink(&b, lens[last]), "wrap", "shrink(%llu) of wrapped memory fails", (unsigned long long) lens[last]);
		MC_CHECK(!mc_alloc_calls && mc_live_blocks() == 1, "wrap", "shrink(%llu) of wrapped memory allocates or frees",
			 (unsigned long long) lens[last]);
		MC_CHECK(sc_buf_cap(&b) == n && sc_buf_at(&b, 0) == p && sc_buf_size(&b) == w && sc_buf_valid(&b), "wrap",
			 "shrink(%llu) of wrapped memory changes it", (unsigned long long) lens[last]);
		MC_CHECK(!memcmp(sc_buf_rbuf(&b), want, w), "wrap", "shrink changes the content");
		MC_CHECK(sc_buf_reserve(&b, n - w) && !sc_buf_reserve(&b, n - w + 1) && !mc_alloc_calls, "wrap",
			 "reserve in wrapped memory");
		MC_CHECK(!sc_buf_valid(&b), "wrap", "a failed reserve left the buffer valid");
		sc_buf_clear(&b);
		MC_CHECK(sc_buf_valid(&b) && !sc_buf_size(&b), "wrap", "clear");
		sc_buf_put_raw(&b, want, w);
		MC_CHECK(sc_buf_valid(&b) && sc_buf_size(&b) == w, "wrap", "put_raw");
	}
	mc_alloc_reset(0);
	sc_buf_term(&b);
	MC_CHECK(mc_live_blocks() == 1, "ref-free", "wrapped memory freed");
	mc_free(p);
	mc_big_limit = 0;
	mc_evals++;
}

#define A(x) x, (int) (sizeof(x) / sizeof(x[0]))
static const struct opd o_all[] = {
	{KBOOL, 1, 0, 0}, {K8, 0, 0, 0}, {K16, 0, 0, 0}, {K32, 0, 0, 0},
	{K64, 0, 0, 0}, {KDBL, 1, 0, 0}, {KSTR, 0, 0, 3}, {KNULL, 0, 0, 0},
	{KSTRLEN, 1, 0, 2}, {KFMT, 0, 0, 4}, {KBLOB, 0, 0, 3}, {KRAW, 0, 0, 2},
};
static const struct opd o_edge[] = {
	{KSTR, 1, 0, 0}, {KNULL, 1, 0, 0}, {KSTRLEN, 0, 0, 0}, {KFMT, 1, 0, 0},
	{KBLOB, 1, 0, 0}, {KDBL, 0, 0, 0}, {KBOOL, 0, 0, 0}, {K64, 1, 0, 0},
	{KSTR, 0, 1, -1}, {KSTR, 0, 1, 0}, {KSTR, 0, 1, 1},
	{KFMT, 1, 1, -1}, {KFMT, 1, 1, 0}, {KFMT, 1, 1, 1},
	{KBLOB, 0, 1, 0}, {KBLOB, 0, 1, 1}, {KRAW, 1, 1, 0}, {KRAW, 1, 1, 1},
	{KSTRLEN, 0, 1, 0}, {KSTRLEN, 0, 1, 1},
};
static const struct opd o_grow[] = {
	{KFMT, 0, 2, -1}, {KFMT, 0, 2, 0}, {KFMT, 0, 2, 1},
	{KSTR, 1, 2, 0}, {KSTR, 1, 2, 1}, {KBLOB, 0, 2, 0}, {KRAW, 0, 2, 0},
	{KRAW, 0, 2, 1}, {KFMT, 1, 1, 0}, {KFMT, 1, 1, 1}, {K32, 0, 0, 0},
	{KSTRLEN, 1, 2, 0},
};
static const struct {
	const char *name;
	const struct opd *o;
	int no;
} sets[] = {{"all", A(o_all)}, {"edge", A(o_edge)}, {"growth", A(o_grow)}};

#if MODE == 0
/* ---- positions and lengths around 2^31 and 2^32 ------------------------------ */
#define G2 ((uint64_t) 1 << 31)
#define G4 ((uint64_t) 1 << 32)
static const uint64_t gat[] = {G2 - 30, G2 - 1, G2, G4 - 30, G4 - 9, G4 - 1, G4, G4 + 100};
static void giant_run(void)
{
	static uint8_t *mem;
	const uint64_t cap = G4 + 8192;
	uint64_t at = gat[mc_choose(8)], w, x;
	int own = mc_choose(2);
	unsigned char t[64];
	struct sc_buf b, c;
	const char *g;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = G4 * 2;
	mc_note("position %lu of %s", at, own ? "own memory" : "wrapped memory");
	mc_tick();
	if (!mem && !own) {
		mem = mmap(NULL, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (mem == MAP_FAILED || mprotect(mem + cap, 4096, PROT_NONE))
			mc_fail("harness", "no memory");
	}
	if (own)
		MC_CHECK(sc_buf_init(&b, cap), "init", "init");
	else
		b = sc_buf_wrap(mem, cap, SC_BUF_REF);
	MC_CHECK(sc_buf_cap(&b) == cap && sc_buf_quota(&b) == cap && !sc_buf_size(&b), "giant", "capacity");
	/* write there, and read it again */
	sc_buf_set_wpos(&b, at);
	MC_CHECK(sc_buf_valid(&b) && sc_buf_wpos(&b) == at && sc_buf_size(&b) == at && sc_buf_quota(&b) == cap - at, "giant",
		 "positions after set_wpos");
	sc_buf_put_8(&b, 0x81);
	sc_buf_put_16(&b, 0x8283);
	sc_buf_put_32(&b, 0x84858687);
	sc_buf_put_64(&b, 0x88898a8b8c8d8e8f);
	sc_buf_put_str(&b, "string");
	sc_buf_put_fmt(&b, "%d-%s", 12, "f");
	sc_buf_put_blob(&b, "blob", 4);
	sc_buf_put_raw(&b, "raw", 3);
	w = at + 15 + 15 + 13 + 12 + 3;
	MC_CHECK(sc_buf_valid(&b) && sc_buf_wpos(&b) == w && sc_buf_quota(&b) == cap - w, "giant", "wpos is %lu, not %lu",
		 sc_buf_wpos(&b), w);
	MC_CHECK(sc_buf_wbuf(&b) == (uint8_t *) sc_buf_at(&b, 0) + w && sc_buf_rbuf(&b) == sc_buf_at(&b, 0), "giant", "pointers");
	MC_CHECK(sc_buf_peek_8_at(&b, at) == 0x81 && sc_buf_peek_16_at(&b, at + 1) == 0x8283 &&
			 sc_buf_peek_32_at(&b, at + 3) == 0x84858687 && sc_buf_peek_64_at(&b, at + 7) == 0x88898a8b8c8d8e8f,
		 "giant", "peek");
	memset(t, 0x77, sizeof(t));
	MC_CHECK(sc_buf_peek_data(&b, w - 3, t, 3) == 3 && !memcmp(t, "raw", 3), "giant", "peek_data");
	sc_buf_set_rpos(&b, at);
	MC_CHECK(sc_buf_rpos(&b) == at && sc_buf_size(&b) == w - at && sc_buf_rbuf(&b) == sc_buf_at(&b, at), "giant", "set_rpos");
	MC_CHECK(sc_buf_get_8(&b) == 0x81 && sc_buf_get_16(&b) == 0x8283 && sc_buf_get_32(&b) == 0x84858687 &&
			 sc_buf_get_64(&b) == 0x88898a8b8c8d8e8f,
		 "giant", "numbers");
	g = sc_buf_get_str(&b);
	MC_CHECK(g && !strcmp(g, "string"), "giant", "string");
	g = sc_buf_get_str(&b);
	MC_CHECK(g && !strcmp(g, "12-f"), "giant", "fmt");
	MC_CHECK(sc_buf_get_64(&b) == 4 && (g = sc_buf_get_blob(&b, 4)) && !memcmp(g, "blob", 4), "giant", "blob");
	sc_buf_get_data(&b, t, 3);
	MC_CHECK(!memcmp(t, "raw", 3) && sc_buf_rpos(&b) == w && !sc_buf_size(&b) && sc_buf_valid(&b), "giant", "data");
	/* change what was written, and move a part */
	sc_buf_set_32_at(&b, at + 3, 0xa1a2a3a4);
	MC_CHECK(sc_buf_set_data(&b, w - 3, "war", 3) == 3 && sc_buf_peek_32_at(&b, at + 3) == 0xa1a2a3a4, "giant", "set");
	sc_buf_set_rpos(&b, w - 3);
	MC_CHECK(sc_buf_init(&c, 10), "init", "init");
	sc_buf_put_8(&c, 1);
	sc_buf_move(&c, &b);
	MC_CHECK(sc_buf_wpos(&c) == 4 && sc_buf_rpos(&b) == w && !memcmp(sc_buf_at(&c, 1), "war", 3), "giant", "move from");
	sc_buf_move(&b, &c);
	MC_CHECK(sc_buf_wpos(&b) == w + 4 && !sc_buf_size(&c) && !memcmp(sc_buf_at(&b, w), "\1war", 4), "giant", "move to");
	sc_buf_term(&c);
	/* a string of at bytes, at the start of the memory */
	sc_buf_set_64_at(&b, 0, at);
	memcpy(sc_buf_at(&b, 8), "begin", 6);
	memset(sc_buf_at(&b, 8 + at), 0, 4);
	sc_buf_set_rpos(&b, 0);
	g = sc_buf_get_str(&b);
	MC_CHECK(g == sc_buf_at(&b, 8) && sc_buf_rpos(&b) == at + 9 && sc_buf_valid(&b), "giant", "string of %lu bytes", at);
	sc_buf_set_rpos(&b, 1);
	MC_CHECK(sc_buf_get_blob(&b, at) == sc_buf_at(&b, 1) && sc_buf_rpos(&b) == at + 1, "giant", "blob of %lu bytes", at);
	/* the same, one byte too long */
	x = sc_buf_wpos(&b);
	sc_buf_set_64_at(&b, 0, x - 8);
	sc_buf_set_rpos(&b, 0);
	MC_CHECK(!sc_buf_get_str(&b) && !sc_buf_valid(&b), "giant", "string beyond the end");
	b.err = 0;
	sc_buf_set_rpos(&b, 9);
	MC_CHECK(!sc_buf_get_blob(&b, x - 8) && !sc_buf_valid(&b), "giant", "blob beyond the end");
	b.err = 0;
	MC_CHECK(sc_buf_peek_16_at(&b, x - 1) == 0 && !sc_buf_valid(&b), "giant", "peek beyond the end");
	b.err = 0;
	/* raw access */
	sc_buf_set_rpos(&b, 3);
	sc_buf_mark_read(&b, at);
	MC_CHECK(sc_buf_rpos(&b) == at + 3, "giant", "mark_read");
	sc_buf_set_wpos(&b, 10);
	sc_buf_set_rpos(&b, 0);
	sc_buf_mark_write(&b, at);
	MC_CHECK(sc_buf_wpos(&b) == at + 10, "giant", "mark_write");
	sc_buf_set_wpos(&b, cap + 1);
	MC_CHECK(!sc_buf_valid(&b) && sc_buf_wpos(&b) == at + 10, "giant", "wpos beyond the capacity");
	b.err = 0;
	/* what is left moves to the front */
	sc_buf_set_wpos(&b, at + 40);
	memcpy(sc_buf_at(&b, at + 30), "0123456789", 10);
	sc_buf_set_rpos(&b, at + 30);
	sc_buf_compact(&b);
	MC_CHECK(!sc_buf_rpos(&b) && sc_buf_wpos(&b) == 10 && !memcmp(sc_buf_at(&b, 0), "0123456789", 10), "giant", "compact");
	/* fill it */
	MC_CHECK(sc_buf_reserve(&b, cap - 10) && sc_buf_cap(&b) == cap, "giant", "reserve of the rest");
	if (!own) {
		MC_CHECK(!sc_buf_reserve(&b, cap - 9) && !sc_buf_valid(&b) && sc_buf_cap(&b) == cap, "giant", "reserve of more");
		b.err = 0;
		sc_buf_set_wpos(&b, cap - 4);
		sc_buf_put_32(&b, 1);
		MC_CHECK(sc_buf_valid(&b) && sc_buf_wpos(&b) == cap && !sc_buf_quota(&b), "giant", "last bytes");
		sc_buf_put_8(&b, 1);
		MC_CHECK(!sc_buf_valid(&b) && sc_buf_wpos(&b) == cap, "giant", "write beyond the end");
	}
	sc_buf_term(&b);
	/* moving all of it: one block of equal bytes, mapped again and again */
	if (!own && (at == G2 || at == G4 + 100)) {
		uint8_t *rep, *rep2; /* two views of it */
		const uint64_t blk = 16 << 20, span = G4 + 2 * blk;
		int fd = memfd_create("b", 0);
		rep = mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		rep2 = mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (fd < 0 || ftruncate(fd, (off_t) blk) || rep == MAP_FAILED || rep2 == MAP_FAILED)
			mc_fail("harness", "no memory");
		for (x = 0; x < span; x += blk)
			if (mmap(rep + x, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED ||
			    mmap(rep2 + x, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
				mc_fail("harness", "no memory");
		memset(rep, 'e', blk);
		b = sc_buf_wrap(rep, span, SC_BUF_REF);
		sc_buf_set_wpos(&b, at + 7);
		sc_buf_set_rpos(&b, 7);
		mc_tick();
		sc_buf_compact(&b);
		mc_tick();
		MC_CHECK(!sc_buf_rpos(&b) && sc_buf_wpos(&b) == at, "giant", "compact of %lu bytes leaves %lu", at, sc_buf_wpos(&b));
		c = sc_buf_wrap(rep2, span, SC_BUF_REF);
		sc_buf_move(&c, &b);
		mc_tick();
		MC_CHECK(sc_buf_valid(&c) && sc_buf_wpos(&c) == at && sc_buf_rpos(&b) == at, "giant", "move of %lu bytes moves %lu", at,
			 sc_buf_wpos(&c));
		sc_buf_set_wpos(&c, 10);
		sc_buf_put_raw(&c, rep, at);
		mc_tick();
		MC_CHECK(sc_buf_valid(&c) && sc_buf_wpos(&c) == at + 10, "giant", "put_raw of %lu bytes", at);
		munmap(rep, span);
		munmap(rep2, span);
		close(fd);
	}
	/* growing from nothing */
	MC_CHECK(sc_buf_init(&b, 0), "init", "init");
	if (own) {
		sc_buf_put_8(&b, 7);
		MC_CHECK(sc_buf_reserve(&b, at) && sc_buf_quota(&b) >= at && sc_buf_peek_8(&b) == 7, "giant", "reserve of %lu", at);
		sc_buf_set_wpos(&b, at);
		sc_buf_put_64(&b, 99);
		MC_CHECK(sc_buf_peek_64_at(&b, at) == 99, "giant", "write after growing");
	} else {
		sc_buf_limit(&b, at);
		MC_CHECK(!sc_buf_reserve(&b, at + 1), "giant", "reserve beyond the limit of %lu", at);
	}
	sc_buf_term(&b);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
	mc_distinct_add(&(uint64_t[2]){at, (uint64_t) own}, 16);
	mc_evals++;
}
#endif
#if MODE == 0
/* ---- long values ---------------------------------------------------------- */
static unsigned big_w, big_rep;
static void big_run(void)
{
	static char src[300000];
	static const unsigned ln[] = {0, 1, 127, 128, 254, 255, 256, 4090, 4096, 16383, 16384,
				      32767, 32768, 65530, 65535, 65536, 65537, 131072, 262144};
	unsigned l[3], w = big_w, rep;
	int kind[3], n;
	uint64_t cap;
	struct sc_buf b;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 16 << 20;
	rep = big_rep;
	n = rep ? 1 : 2;
	for (int i = 0; i < n; i++) {
		kind[i] = mc_choose(5); /* str, str_len, fmt, blob, raw */
		l[i] = ln[mc_choose(sizeof(ln) / sizeof(*ln))];
		mc_note("%u bytes as kind %d, ", l[i], kind[i]);
	}
	if (rep && l[0] > 300)
		return;
	rep = rep ? 70000 / (l[0] + 8) : 1;
	for (size_t i = 0; i < sizeof(src); i++)
		src[i] = (char) (1 + (i * 7 + (i >> 8) + (i >> 16)) % 255);
	MC_CHECK(sc_buf_init(&b, w == 1 ? 0 : w == 2 ? 100 : 70000), "init", "init");
	for (unsigned r = 0; r < rep; r++) {
		mc_tick();
		for (int i = 0; i < n; i++) {
			const char *p = src + i + r % 200;
			char c = p[l[i]];
			src[i + r % 200 + l[i]] = 0;
			switch (kind[i]) {
			case 0: sc_buf_put_str(&b, p); break;
			case 1: sc_buf_put_str_len(&b, p, l[i]); break;
			case 2: sc_buf_put_fmt(&b, "%s", p); break;
			case 3: sc_buf_put_blob(&b, p, l[i]); break;
			case 4: sc_buf_put_raw(&b, p, l[i]); break;
			}
			src[i + r % 200 + l[i]] = c;
		}
	}
	sc_buf_put_64(&b, 0x1122334455667788);
	MC_CHECK(sc_buf_valid(&b), "valid", "buffer invalid after writing");
	MC_CHECK(sc_buf_wpos(&b) <= sc_buf_cap(&b), "cap", "wrote beyond the capacity");
	cap = sc_buf_cap(&b);
	if (w == 3) {
		sc_buf_compact(&b);
		MC_CHECK(sc_buf_shrink(&b, 0), "shrink", "shrink failed");
		MC_CHECK(sc_buf_cap(&b) <= cap, "shrink", "capacity grew");
	}
	for (unsigned r = 0; r < rep; r++) {
		for (int i = 0; i < n; i++) {
			const char *p = src + i + r % 200, *g;
			static char t[300000];
			uint64_t len = l[i];
			switch (kind[i]) {
			case 0: case 1: case 2:
				g = sc_buf_get_str(&b);
				MC_CHECK(g && strlen(g) == len, "big", "%u byte string %u: %s, %zu bytes",
					 l[i], r, g ? "read" : "NULL", g ? strlen(g) : 0);
				break;
			case 3:
				len = sc_buf_get_64(&b);
				MC_CHECK(len == l[i], "big", "blob length is %lu, not %u", len, l[i]);
				g = sc_buf_get_blob(&b, len);
				break;
			default:
				sc_buf_get_data(&b, t, len);
				g = t;
				break;
			}
			MC_CHECK(!len || !memcmp(g, p, len), "big", "value of %u bytes is changed", l[i]);
		}
	}
	MC_CHECK(sc_buf_get_64(&b) == 0x1122334455667788 && sc_buf_valid(&b) && !sc_buf_size(&b),
		 "big", "end of the buffer");
	mc_distinct_add(l, sizeof(l[0]) * (size_t) n);
	sc_buf_term(&b);
	MC_CHECK(!mc_live_blocks(), "leak", "leak");
}
#endif

int main(int argc, char **argv)
{
	static const struct {
		int cap, pre, ref, lim;
	} cf[] = {
		{0, 0, 0, 0},	  {1, 0, 0, 0},	    {8, 0, 0, 0},
		{9, 3, 0, 0},	  {33, 0, 0, 0},    {4096, 0, 0, 0},
		{4096, 4080, 0, 0}, {4100, 4090, 0, 0}, {0, 0, 1, 0},
		{1, 0, 1, 0},	  {9, 0, 1, 0},	    {24, 5, 1, 0},
		{33, 0, 1, 0},	  {40, 7, 0, 4096}, {4096, 4070, 0, 4096},
		{64, 0, 0, 8192}, {64, 0, 0, 20},   {40, 7, 0, 5000},
		{4100, 4090, 0, 8191}, {0, 0, 0, 4095}, {0, 0, 0, 4097},
	};
	static struct mc_sys s;

	gen();
	mc_init(argc, argv);
#if MODE == 2
	if (mc_mine("wrapped memory"))
		mc_dfs(wrap_run, 0, UINT64_MAX);
	static const struct {
		int depth, small;
	} dm[] = {{1, 0}, {2, 1}, {3, 1}, {2, 0}};
	for (int d = 0; d < (mc_thorough ? 4 : 3); d++)
		for (int n = 20; n >= 0; n--) {
			if (!mc_mine("decode n=%d depth=%d small=%d", n,
				     dm[d].depth, dm[d].small))
				continue;
			dec_n = n;
			dec_depth = dm[d].depth;
			dec_small = dm[d].small;
			mc_dfs(dec_run, 0, UINT64_MAX);
		}
#else
	for (unsigned c = 0; c < sizeof(cf) / sizeof(cf[0]); c++)
		for (unsigned k = 0; k < 4; k++) {
			if (!mc_mine("buf cap=%d prefill=%d ref=%d limit=%d "
				     "ops=%s", cf[c].cap, cf[c].pre, cf[c].ref,
				     cf[c].lim, k == 3 ? "text" : sets[k].name))
				continue;
			init_cap = (uint64_t) cf[c].cap;
			prefill = cf[c].pre;
			is_ref = cf[c].ref;
			limit = (uint64_t) cf[c].lim;
			if (is_ref && k == 2)
				continue;
			memset(&s, 0, sizeof(s));
			mc_regions_clear();
			mc_region(&obj, sizeof(obj));
			if (is_ref)
				mc_region(refmem, sizeof(refmem));
			s.faults = MODE == 1;
			s.max_depth = 100;
			if (k == 3) {
				mc_region(&tm, sizeof(tm));
				s.init = t_init;
				s.apply = t_apply;
				s.check = t_check;
				s.opname = t_opname;
				s.nops = NT + 5;
				s.max_depth = mc_thorough ? 6 : 4;
			} else {
				ops = sets[k].o;
				nops_put = sets[k].no;
				max_items = mc_thorough ? 3 : 2;
				mc_region(&m, sizeof(m));
				s.init = sys_init;
				s.apply = apply;
				s.check = check;
				s.opname = opname;
				s.nops = nops_put + NOPS_REST;
				s.max_depth = mc_thorough ? 6 : 4;
			}
			s.term = term;
			s.max_states = mc_thorough ? 40000 : 4000;
			mc_bfs(&s);
		}
#if MODE == 0
	if (mc_mine("giants"))
		mc_dfs(giant_run, 0, UINT64_MAX);
	mc_big_limit = 0;
	if (mc_mine("move"))
		mc_dfs(move_run, 0, UINT64_MAX);
	for (big_w = 1; big_w <= 3; big_w++)
		for (big_rep = 0; big_rep < 2; big_rep++)
			if (mc_mine("long values %u %u", big_w, big_rep))
				mc_dfs(big_run, 0, UINT64_MAX);
#endif
#endif
	return mc_done();
}
