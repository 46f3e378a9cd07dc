#define _GNU_SOURCE
/* C19: the checksum against the bitwise definition. */
#include "mc.h"
#include "sc_crc32.h"

#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static uint32_t tab[256];

static uint32_t ref(uint32_t crc, const uint8_t *b, size_t n)
{
	crc = ~crc;
	while (n--)
		crc = tab[(crc ^ *b++) & 255] ^ crc >> 8;
	return ~crc;
}

static uint8_t *arena; /* the end is the end of the allocation */
#define ARENA 140000

/* message of n bytes that ends k bytes before the end */
static void one(size_t n, size_t k, uint32_t init, uint32_t want, const char *what)
{
	uint32_t got;

	mc_tick();
	mc_evals++;
	got = sc_crc32(init, arena + ARENA - k - n, n);
	MC_CHECK(got == want, "crc", "%s: %zu bytes, alignment %zu, initial %08x: %08x, not %08x",
		 what, n, (ARENA - k - n) % 8, init, got, want);
}

static const uint32_t inits[] = {0, 1, 0xffffffff, 0x80000000, 0xdeadbeef};

static void fill(int pat)
{
	uint32_t x = 12345;
	for (size_t i = 0; i < ARENA; i++) {
		x = x * 1103515245 + 12345;
		arena[i] = (uint8_t) (pat == 0	 ? 0
				      : pat == 1 ? 255
				      : pat == 2 ? x >> 16
						 : i);
	}
}

/* ---- messages beyond 2^32 bytes: a block of 16 MB, mapped again and again --- */
#define BLK ((size_t) 16 << 20)
struct mat {
	uint32_t c[32];
};
static uint32_t times(const struct mat *m, uint32_t v)
{
	uint32_t s = 0;
	for (int i = 0; v; i++, v >>= 1)
		if (v & 1)
			s ^= m->c[i];
	return s;
}
/* the raw register after n zero bytes */
static uint32_t zeros(uint32_t reg, uint64_t n)
{
	struct mat m, q;
	for (int i = 0; i < 32; i++)
		m.c[i] = tab[1u << i & 255] ^ (1u << i) >> 8;
	for (; n; n >>= 1) {
		if (n & 1)
			reg = times(&m, reg);
		for (int i = 0; i < 32; i++)
			q.c[i] = times(&m, m.c[i]);
		m = q;
	}
	return reg;
}
static void giants(void)
{
	static const size_t n[] = {BLK + 5, ((size_t) 1 << 31) - 1, ((size_t) 1 << 31) + 13, ((size_t) 1 << 32) - 1,
				   (size_t) 1 << 32, ((size_t) 1 << 32) + 777, ((size_t) 1 << 32) + 5 * BLK + 3};
	size_t span = ((size_t) 1 << 32) + 7 * BLK;
	uint8_t *p = NULL;
	uint32_t blk = 0, x = 1;
	int fd = -1;

	for (int i = 0; i < 7; i++) {
		if (!mc_mine("%zu bytes", n[i]))
			continue;
		if (!p) {
			fd = memfd_create("m", 0);
			p = mmap(NULL, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (fd < 0 || ftruncate(fd, (off_t) BLK) || p == MAP_FAILED)
				mc_fail("harness", "no memory");
			for (size_t at = 0; at < span; at += BLK)
				if (mmap(p + at, BLK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
					mc_fail("harness", "no memory");
			for (size_t k = 0; k < BLK; k++) {
				x = x * 1103515245 + 12345;
				p[k] = (uint8_t) (x >> 16);
			}
			blk = ~ref(0xffffffff, p, BLK); /* register, from 0 */
		}
		size_t k = (size_t) i * 3 % 8, left = n[i], head = BLK - k;
		uint32_t init = i & 1 ? 0xdeadbeef : 0, reg = ~ref(init, p + k, head), got;
		for (left -= head; left >= BLK; left -= BLK)
			reg = zeros(reg, BLK) ^ blk;
		mc_tick();
		got = sc_crc32(init, p + k, n[i]);
		mc_tick();
		MC_CHECK(got == ref(~reg, p, left), "crc", "%zu bytes: %08x, not %08x", n[i], got, ref(~reg, p, left));
		mc_evals++;
		mc_distinct_add(&n[i], sizeof(n[i]));
	}
	if (p)
		munmap(p, span);
	if (fd >= 0)
		close(fd);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	for (uint32_t i = 0; i < 256; i++) {
		uint32_t c = i; /* reflected 0x1EDC6F41 */
		for (int k = 0; k < 8; k++)
			c = c & 1 ? c >> 1 ^ 0x82F63B78 : c >> 1;
		tab[i] = c;
	}
	arena = malloc(ARENA);
	memset(arena, 0, ARENA);
	sc_crc32_init();

	if (mc_mine("check values")) {
		memcpy(arena + ARENA - 9, "123456789", 9);
		one(9, 0, 0, 0xE3069283, "check value");
		one(0, 0, 0, 0, "empty");
		for (int i = 0; i < 5; i++)
			one(0, 3, inits[i], inits[i], "empty");
		sc_crc32_init(); /* a second call does no harm */
		one(9, 0, 0, 0xE3069283, "check value");
	}
	giants();
	/* every length and alignment */
	for (int pat = 0; pat < 4; pat++)
		for (size_t part = 0; part < 16; part++) {
			size_t max = mc_thorough ? 16000 : 7400;
			if (!mc_mine("lengths pattern %d part %zu", pat, part))
				continue;
			fill(pat);
			for (size_t n = part; n <= max; n += 16)
				for (size_t k = 0; k < 8; k++)
					for (int i = 0; i < (n < 2000 ? 5 : 2); i++)
						one(n, k, inits[i],
						    ref(inits[i], arena + ARENA - k - n, n),
						    "lengths");
			mc_distinct_add(&part, sizeof(part));
		}
	/* lengths around powers of two, beyond 16 bits */
	static const size_t big[] = {16384, 32767, 32768, 65528, 65535, 65536, 65537, 65544,
				     66304, 70001, 98304, 131071, 131072, 131073, 139000};
	for (size_t b = 0; b < sizeof(big) / sizeof(*big); b++) {
		if (!mc_mine("%zu bytes", big[b]))
			continue;
		fill(2);
		for (size_t k = 0; k < 8; k++) {
			uint8_t *p = arena + ARENA - k - big[b];
			uint32_t want = ref(0, p, big[b]);
			one(big[b], k, 0, want, "long");
			for (size_t a = 1; a < big[b]; a += 6553) /* split */
				one(big[b] - a, k, sc_crc32(0, p, a), want, "long split");
		}
		mc_distinct_add(&b, sizeof(b));
	}
	/* all messages of one and two bytes, all of three bytes in thorough */
	for (unsigned a = 0; a < 256; a++) {
		if (!mc_mine("messages starting with %u", a))
			continue;
		for (unsigned b = 0; b < 256; b++) {
			uint8_t *p = arena + ARENA - 3;
			p[0] = p[1] = (uint8_t) a;
			p[2] = (uint8_t) b;
			one(2, 0, 0, ref(0, p + 1, 2), "two bytes");
			one(1, 0, a << 16 | b, ref(a << 16 | b, p + 2, 1), "one byte");
			for (unsigned c = 0; mc_thorough && c < 256; c++) {
				p[1] = (uint8_t) c;
				one(3, 0, 0, ref(0, p, 3), "three bytes");
			}
		}
		mc_distinct_add(&a, sizeof(a));
	}
	/* a single bit at every position of messages around the block sizes */
	static const size_t lens[] = {1, 7, 8, 9, 15, 16, 63, 64, 767, 768, 769, 775, 1535,
				      1536, 1544, 6143, 6144, 6145, 6912, 7000, 12288};
	for (size_t l = 0; l < sizeof(lens) / sizeof(*lens); l++)
		for (int part = 0; part < 8; part++) {
			size_t n = lens[l];
			if (n > 1600 && !mc_thorough && (part & 1))
				continue; /* half of the bits in quick */
			if (!mc_mine("bits of %zu bytes part %d", n, part))
				continue;
			memset(arena, 0, ARENA);
			for (size_t i = (size_t) part; i < n; i += 8)
				for (int bit = 0; bit < 8; bit++) {
					size_t k = n > 1600 ? i % 8 : 0;
					uint8_t *p = arena + ARENA - k - n;
					if (n > 7000 && !mc_thorough && bit != 3)
						continue;
					p[i] = (uint8_t) (1 << bit);
					one(n, k, 0, ref(0, p, n), "single bit");
					p[i] = 0;
				}
			mc_distinct_add(&l, sizeof(l));
		}
	/* partial buffers: every split, and three parts */
	for (size_t n = 0; n <= (mc_thorough ? 1800u : 900u); n += n < 80 ? 1 : 41) {
		if (!mc_mine("splits of %zu bytes", n))
			continue;
		fill(2);
		for (size_t k = 0; k < (n < 80 ? 8u : 2u); k++) {
			uint8_t *p = arena + ARENA - k - n;
			uint32_t want = ref(0, p, n);
			for (size_t a = 0; a <= n; a++) {
				uint32_t c = sc_crc32(0, p, a);
				one(n - a, k, c, want, "split");
				for (size_t b = a; n < 40 && b <= n; b++)
					MC_CHECK(sc_crc32(sc_crc32(c, p + a, b - a), p + b,
							  n - b) == want,
						 "crc", "three parts of %zu", n);
			}
		}
		mc_distinct_add(&n, sizeof(n));
	}
	mc_sample("769 bytes at alignment 5 from initial value deadbeef");
	return mc_done();
}
