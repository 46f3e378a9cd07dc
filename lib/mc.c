#define _GNU_SOURCE
#include "mc.h"

#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#ifdef MC_ASAN
#include <sanitizer/asan_interface.h>
void __sanitizer_set_death_callback(void (*cb)(void));
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void) 0)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void) 0)
#endif

int mc_thorough, mc_shard, mc_nshards = 1, mc_replaying;
unsigned long mc_seed;
uint64_t mc_states, mc_transitions, mc_evals, mc_distinct, mc_validated;

static const char *out_file, *replay_out;
static char replay_cfg[1024], replay_path[1 << 16];
static char cur_cfg[1024];
static unsigned cfg_no;

#define NOTE_MAX (1 << 16)
static char note[NOTE_MAX];
static size_t note_len;

#define MAX_SAMPLES 12
static char *samples[MAX_SAMPLES];
static int nsamples;
static struct {
	char name[64];
	uint64_t n;
} counts[128];
static int ncounts;
static char incomplete[512];

#define MAX_KNOWN 64
static char *known[MAX_KNOWN];
static uint64_t known_hits[MAX_KNOWN];
static char *known_msg[MAX_KNOWN];
static int nknown;

static enum { ENG_NONE, ENG_BFS, ENG_DFS } engine;
static jmp_buf prune_jmp;
static volatile uint64_t ticks;
static bool reporting;
static void report(const char *sig, const char *msg);

/* ------------------------------------------------------------------ hash */
static inline uint64_t mix(uint64_t a, uint64_t b)
{
	__uint128_t r = (__uint128_t) a * b;
	return (uint64_t) r ^ (uint64_t) (r >> 64);
}

uint64_t mc_hash(const void *p, size_t n, uint64_t seed)
{
	const uint8_t *b = p;
	uint64_t h = seed ^ 0x9E3779B97F4A7C15ull ^ n, w;

	while (n >= 8) {
		memcpy(&w, b, 8);
		h = mix(h ^ w, 0xA0761D6478BD642Full);
		b += 8;
		n -= 8;
	}
	w = 0;
	memcpy(&w, b, n);
	return mix(h ^ w ^ 0xE7037ED1A0B428DBull, 0x8EBC6AF09C88C6E3ull);
}

struct hset {
	uint64_t (*t)[2];
	uint64_t cap, n;
};

static bool hset_add(struct hset *s, uint64_t a, uint64_t b)
{
	if (a == 0 && b == 0)
		b = 1;
	if (s->n * 10 >= s->cap * 7) {
		struct hset o = *s;
		s->cap = o.cap ? o.cap * 2 : 1 << 12;
		s->t = calloc(s->cap, 16);
		if (!s->t) {
			fprintf(stderr, "mc: out of memory\n");
			_exit(99);
		}
		s->n = 0;
		for (uint64_t i = 0; i < o.cap; i++)
			if (o.t[i][0] | o.t[i][1])
				hset_add(s, o.t[i][0], o.t[i][1]);
		free(o.t);
	}
	for (uint64_t i = a & (s->cap - 1);; i = (i + 1) & (s->cap - 1)) {
		if (!(s->t[i][0] | s->t[i][1])) {
			s->t[i][0] = a;
			s->t[i][1] = b;
			s->n++;
			return true;
		}
		if (s->t[i][0] == a && s->t[i][1] == b)
			return false;
	}
}

static struct hset outcomes;

bool mc_distinct_add(const void *p, size_t n)
{
	bool r = hset_add(&outcomes, mc_hash(p, n, 1), mc_hash(p, n, 2));
	if (r)
		mc_distinct++;
	return r;
}

/* ------------------------------------------------------------ reporting */
static void json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char) *s;
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

void mc_sample(const char *fmt, ...)
{
	char b[2048];
	va_list ap;

	if (nsamples >= MAX_SAMPLES)
		return;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	samples[nsamples++] = strdup(b);
}

void mc_count(const char *name, uint64_t n)
{
	for (int i = 0; i < ncounts; i++)
		if (!strcmp(counts[i].name, name)) {
			counts[i].n += n;
			return;
		}
	if (ncounts < 128) {
		snprintf(counts[ncounts].name, 64, "%s", name);
		counts[ncounts++].n = n;
	}
}

void mc_incomplete(const char *why)
{
	if (!strstr(incomplete, why) &&
	    strlen(incomplete) + strlen(why) + 3 < sizeof(incomplete)) {
		strcat(incomplete, why);
		strcat(incomplete, "; ");
	}
}

void mc_note_reset(void)
{
	note_len = 0;
	note[0] = 0;
}

void mc_note(const char *fmt, ...)
{
	va_list ap;
	int r;

	if (note_len + 512 > NOTE_MAX)
		return;
	va_start(ap, fmt);
	r = vsnprintf(note + note_len, NOTE_MAX - note_len, fmt, ap);
	va_end(ap);
	if (r > 0) {
		note_len += (size_t) r;
		if (note_len >= NOTE_MAX)
			note_len = NOTE_MAX - 1;
	}
}

void mc_tick(void)
{
	ticks++;
	/* whatever an earlier call left there must not matter */
	errno = ERANGE;
}

static double time_limit; /* wall seconds, 0: none */

static double now_s(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9;
}

static double start_s;
static bool over_time(void)
{
	static bool over;
	static unsigned n;

	if (!over && time_limit > 0 && !mc_replaying && n++ % 64 == 0 &&
	    now_s() - start_s > time_limit) {
		over = true;
		mc_incomplete("time limit reached");
	}
	return over;
}

static void engine_trace(FILE *f);

static void write_result(const char *viol_sig, const char *viol_msg)
{
	FILE *f;

	if (!out_file)
		return;
	f = fopen(out_file, "w");
	if (!f)
		return;
	fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"evaluations\":%llu,"
		   "\"distinct\":%llu,\"validated\":%llu,\n\"counts\":{",
		(unsigned long long) mc_states,
		(unsigned long long) mc_transitions,
		(unsigned long long) mc_evals, (unsigned long long) mc_distinct,
		(unsigned long long) mc_validated);
	for (int i = 0; i < ncounts; i++) {
		fprintf(f, "%s", i ? "," : "");
		json_str(f, counts[i].name);
		fprintf(f, ":%llu", (unsigned long long) counts[i].n);
	}
	fprintf(f, "},\n\"samples\":[");
	for (int i = 0; i < nsamples; i++) {
		fprintf(f, "%s", i ? "," : "");
		json_str(f, samples[i]);
	}
	fprintf(f, "],\n\"known\":{");
	bool first = true;
	for (int i = 0; i < nknown; i++) {
		if (!known_hits[i])
			continue;
		fprintf(f, "%s", first ? "" : ",");
		first = false;
		json_str(f, known[i]);
		fprintf(f, ":{\"hits\":%llu,\"first\":",
			(unsigned long long) known_hits[i]);
		json_str(f, known_msg[i] ? known_msg[i] : "");
		fprintf(f, "}");
	}
	fprintf(f, "},\n\"incomplete\":");
	json_str(f, incomplete);
	if (viol_sig) {
		fprintf(f, ",\n\"violation\":{\"sig\":");
		json_str(f, viol_sig);
		fprintf(f, ",\"msg\":");
		json_str(f, viol_msg);
		fprintf(f, ",\"config\":");
		json_str(f, cur_cfg);
		fprintf(f, "}");
	}
	fprintf(f, "}\n");
	fclose(f);
}

static void report(const char *sig, const char *msg)
{
	FILE *f;

	if (reporting)
		return;
	reporting = true;
	printf("RAW-VIOLATION sig=%s config={%s} %s\n", sig, cur_cfg, msg);
	engine_trace(stdout);
	if (note_len)
		printf("notes:\n%s\n", note);
	fflush(stdout);
	if (replay_out) {
		f = fopen(replay_out, "w");
		if (f) {
			fprintf(f, "config %s\n", cur_cfg);
			engine_trace(f);
			fprintf(f, "# sig %s\n# %s\n", sig, msg);
			for (char *p = note; *p;) {
				char *e = strchr(p, '\n');
				int n = e ? (int) (e - p) : (int) strlen(p);
				fprintf(f, "# %.*s\n", n, p);
				p += n + (e != NULL);
			}
			fclose(f);
		}
	}
	write_result(sig, msg);
}

void mc_fail(const char *sig, const char *fmt, ...)
{
	char b[4096];
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);

	for (int i = 0; i < nknown; i++) {
		if (!strcmp(known[i], sig)) {
			known_hits[i]++;
			if (!known_msg[i]) {
				char m[5200];
				snprintf(m, sizeof(m), "{%s} %s", cur_cfg, b);
				known_msg[i] = strdup(m);
			}
			return;
		}
	}
	report(sig, b);
	_exit(1);
}

static void on_death(void)
{
	report("crash", "sanitizer report or fatal signal (see log)");
}

static void on_fatal(int sig)
{
	char b[64];
	snprintf(b, sizeof(b), "fatal signal %d", sig);
	report("crash", b);
	_exit(1);
}

static void on_watch(int sig)
{
	static uint64_t last;
	static int same;

	(void) sig;
	if (ticks != last) {
		last = ticks;
		same = 0;
		return;
	}
	if (++same >= 10) {
		report("hang", "no progress for 10 s of CPU time: the operation "
			       "does not terminate");
		_exit(1);
	}
}

static void on_wall(int sig)
{
	static uint64_t last;
	static int same;

	(void) sig;
	if (ticks != last) {
		last = ticks;
		same = 0;
		return;
	}
	if (++same >= 6) {
		report("stuck", "no progress for 60 s: the operation blocks");
		_exit(1);
	}
}

void mc_init(int argc, char **argv)
{
	const char *e = getenv("VERIF_SEED");
	struct itimerval it = {{1, 0}, {1, 0}};
	struct sigaction sa;

	mc_seed = e ? strtoul(e, NULL, 0) : 1;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--thorough"))
			mc_thorough = 1;
		else if (!strcmp(argv[i], "--shard") && i + 2 < argc) {
			mc_shard = atoi(argv[++i]);
			mc_nshards = atoi(argv[++i]);
		} else if (!strcmp(argv[i], "--limit") && i + 1 < argc)
			time_limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--out") && i + 1 < argc)
			out_file = argv[++i];
		else if (!strcmp(argv[i], "--replay-out") && i + 1 < argc)
			replay_out = argv[++i];
		else if (!strcmp(argv[i], "--known") && i + 1 < argc) {
			if (nknown < MAX_KNOWN)
				known[nknown++] = argv[++i];
		} else if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
			static char line[1 << 16];
			FILE *f = fopen(argv[++i], "r");
			if (!f) {
				perror("replay");
				exit(2);
			}
			mc_replaying = 1;
			while (fgets(line, sizeof(line), f)) {
				line[strcspn(line, "\n")] = 0;
				if (!strncmp(line, "config ", 7))
					snprintf(replay_cfg, sizeof(replay_cfg),
						 "%.1000s", line + 7);
				else if (!strncmp(line, "path ", 5))
					snprintf(replay_path,
						 sizeof(replay_path), "%s",
						 line + 5);
			}
			fclose(f);
		}
	}
#ifdef MC_ASAN
	__sanitizer_set_death_callback(on_death);
#endif
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = on_fatal;
#ifndef MC_ASAN
	sigaction(SIGSEGV, &sa, NULL);
	sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL);
	sigaction(SIGILL, &sa, NULL);
#endif
	sigaction(SIGABRT, &sa, NULL);
	(void) on_death;
	sa.sa_handler = on_watch;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, NULL);
	setitimer(ITIMER_PROF, &it, NULL);
	sa.sa_handler = on_wall;
	sigaction(SIGALRM, &sa, NULL);
	it.it_value.tv_sec = it.it_interval.tv_sec = 10;
	setitimer(ITIMER_REAL, &it, NULL);
	start_s = now_s();
	mc_heap_reset();
}

int mc_done(void)
{
	write_result(NULL, NULL);
	return 0;
}

void mc_config(const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(cur_cfg, sizeof(cur_cfg), fmt, ap);
	va_end(ap);
}

bool mc_mine(const char *fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(cur_cfg, sizeof(cur_cfg), fmt, ap);
	va_end(ap);
	mc_tick();
	if (mc_replaying)
		return !strcmp(cur_cfg, replay_cfg);
	if (time_limit > 0 && now_s() - start_s > time_limit) {
		mc_incomplete("time limit reached");
		return false;
	}
	return (cfg_no++ % (unsigned) mc_nshards) == (unsigned) mc_shard;
}

/* ------------------------------------------------------------------ heap */
#define ARENA_SIZE (1u << 20)
#define MAX_BLK 256
#define RZ 32

struct blk {
	uint32_t off; /* user offset */
	uint32_t size;
};

static uint8_t arena[ARENA_SIZE] __attribute__((aligned(64)));
static struct heap {
	uint32_t n;
	uint32_t pad;
	struct blk b[MAX_BLK]; /* live blocks, ascending offset */
} heap;

uint8_t mc_fill = 0xA5;
long mc_fail_at, mc_alloc_calls, mc_alloc_failed;
int mc_fail_sticky;
bool mc_allow_huge;
bool mc_no_reuse;
size_t mc_arena_limit = ARENA_SIZE / 4;
static uint32_t arena_hw; /* bytes used since process start */

void mc_heap_reset(void)
{
	static bool once;
	uint32_t n = once ? arena_hw : ARENA_SIZE;

	memset(&heap.b, 0, heap.n * sizeof(heap.b[0]));
	heap.n = 0;
	if (n) {
		ASAN_UNPOISON_MEMORY_REGION(arena, n);
		memset(arena, 0xDD, n);
		ASAN_POISON_MEMORY_REGION(arena, n);
	}
	once = true;
	arena_hw = 0;
	mc_alloc_reset(0);
}

void mc_alloc_reset(long fail_at)
{
	errno = ERANGE;
	mc_fail_at = fail_at;
	mc_fail_sticky = 0;
	mc_alloc_calls = 0;
	mc_alloc_failed = 0;
}

/* blocks of up to mc_big_limit bytes, outside the arena (no part of a state) */
#define MAX_BIG 4
size_t mc_big_limit;
static int nbig;
static struct {
	void *p;
	uint8_t *u;
	size_t n, size;
} big[MAX_BIG];

int mc_live_blocks(void)
{
	return (int) heap.n + nbig;
}

size_t mc_live_bytes(void)
{
	size_t t = 0;
	for (uint32_t i = 0; i < heap.n; i++)
		t += heap.b[i].size;
	for (int i = 0; i < MAX_BIG; i++)
		if (big[i].p)
			t += big[i].size;
	return t;
}

bool mc_heap_owns(const void *p, size_t n)
{
	const uint8_t *c = p;

	for (uint32_t i = 0; i < heap.n; i++) {
		const uint8_t *s = arena + heap.b[i].off;
		if (c >= s && c + n <= s + heap.b[i].size)
			return true;
	}
	return false;
}

static uint32_t heap_end(void)
{
	if (!heap.n)
		return 0;
	return (heap.b[heap.n - 1].off + heap.b[heap.n - 1].size + 15u) / 16 *
		       16 + RZ;
}

static int big_find(const void *p)
{
	for (int i = 0; i < MAX_BIG; i++)
		if (big[i].p && big[i].u == p)
			return i;
	return -1;
}

static void *heap_get(size_t n)
{
	uint32_t at = RZ, i;
	size_t need = (n + 15) / 16 * 16;

	mc_alloc_calls++;
	if (mc_fail_at && (mc_alloc_calls == mc_fail_at ||
			   (mc_fail_sticky && mc_alloc_calls > mc_fail_at))) {
		mc_alloc_failed++;
		return NULL;
	}
	if (n > mc_arena_limit && n <= mc_big_limit)
		for (i = 0; i < MAX_BIG; i++)
			if (!big[i].p) {
				big[i].n = (n + 4095 + 16) / 4096 * 4096 + 4096;
				big[i].size = n;
				big[i].p = mmap(NULL, big[i].n, PROT_READ | PROT_WRITE,
						MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (big[i].p == MAP_FAILED)
					abort();
				/* right before a page that cannot be touched */
				n = (n + 15) / 16 * 16;
				big[i].u = (uint8_t *) big[i].p + (n + 4095) / 4096 * 4096 - n;
				mprotect((uint8_t *) big[i].p + (n + 4095) / 4096 * 4096, 4096, PROT_NONE);
				nbig++;
				return big[i].u;
			}
	if (n > mc_arena_limit || need < n) {
		/* a real allocator refuses only absurd sizes: expected or wrong */
		MC_CHECK(mc_allow_huge, "huge-alloc", "%zu bytes allocated", n);
		mc_alloc_failed++;
		return NULL;
	}
	i = 0;
	if (mc_no_reuse && arena_hw > at) {
		i = heap.n;
		at = arena_hw;
	}
	for (; i < heap.n; i++) {
		if (at + need + RZ <= heap.b[i].off)
			break;
		at = (heap.b[i].off + heap.b[i].size + 15) / 16 * 16 + RZ;
	}
	if (heap.n >= MAX_BLK || at + need + RZ > ARENA_SIZE) {
		report("memory-growth", "the operation keeps more than 1 MB or "
					"256 blocks allocated");
		_exit(1);
	}
	memmove(&heap.b[i + 1], &heap.b[i], (heap.n - i) * sizeof(heap.b[0]));
	heap.b[i].off = at;
	heap.b[i].size = (uint32_t) n;
	heap.n++;
	if (heap_end() > arena_hw)
		arena_hw = heap_end();
	ASAN_UNPOISON_MEMORY_REGION(arena + at, n);
	memset(arena + at, mc_fill, n);
	return arena + at;
}

static int heap_find(const void *p)
{
	for (uint32_t i = 0; i < heap.n; i++)
		if (arena + heap.b[i].off == (const uint8_t *) p)
			return (int) i;
	return -1;
}

void *mc_malloc(size_t n)
{
	return heap_get(n);
}

void *mc_calloc(size_t a, size_t b)
{
	void *p;

	if (b && a > SIZE_MAX / b) {
		MC_CHECK(mc_allow_huge, "huge-alloc", "%zu x %zu bytes allocated", a, b);
		mc_alloc_calls++;
		mc_alloc_failed++;
		return NULL;
	}
	p = heap_get(a * b);
	if (p && a * b <= mc_arena_limit)
		memset(p, 0, a * b);
	return p;
}

void mc_free(void *p)
{
	int i;

	if (!p)
		return;
	i = nbig ? big_find(p) : -1;
	if (i >= 0) {
		munmap(big[i].p, big[i].n);
		big[i].p = NULL;
		nbig--;
		return;
	}
	i = heap_find(p);
	if (i < 0) {
		report("bad-free", "free() of a pointer that is not a live "
				   "heap block (double or wild free)");
		abort();
	}
	memset(p, 0xDD, heap.b[i].size);
	ASAN_POISON_MEMORY_REGION(p, heap.b[i].size);
	heap.n--;
	memmove(&heap.b[i], &heap.b[i + 1],
		(heap.n - (uint32_t) i) * sizeof(heap.b[0]));
	memset(&heap.b[heap.n], 0, sizeof(heap.b[0]));
}

void *mc_realloc(void *p, size_t n)
{
	void *q;
	int i;
	size_t old;

	if (!p)
		return heap_get(n);
	i = nbig ? big_find(p) : -1;
	if (i >= 0 && n > big[i].size && n <= mc_big_limit && n % 4096 == 0 && big[i].size % 4096 == 0 &&
	    !(mc_fail_at && (mc_alloc_calls + 1 == mc_fail_at || (mc_fail_sticky && mc_alloc_calls >= mc_fail_at)))) {
		/* moved without copying, to where a new block would be */
		void *np = mmap(NULL, n + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);

		if (np == MAP_FAILED ||
		    mremap(big[i].u, big[i].size, big[i].size, MREMAP_MAYMOVE | MREMAP_FIXED, np) != np)
			abort();
		munmap(big[i].p, big[i].n);
		mprotect((uint8_t *) np + n, 4096, PROT_NONE);
		big[i].p = big[i].u = np;
		big[i].n = n + 8192;
		big[i].size = n;
		mc_alloc_calls++;
		return np;
	}
	if (i >= 0 && n) {
		old = big[i].size;
		q = heap_get(n);
		if (q) {
			memcpy(q, p, old < n ? old : n);
			mc_free(p);
		}
		return q;
	}
	i = heap_find(p);
	if (i < 0) {
		report("bad-free", "realloc() of a pointer that is not a live "
				   "heap block");
		abort();
	}
	if (n == 0) { /* glibc */
		mc_free(p);
		return NULL;
	}
	old = heap.b[i].size;
	q = heap_get(n);
	if (!q)
		return NULL;
	memcpy(q, p, old < n ? old : n);
	mc_free(p);
	return q;
}

char *mc_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = heap_get(n);
	if (p)
		memcpy(p, s, n);
	return p;
}

char *mc_strndup(const char *s, size_t k)
{
	size_t n = strnlen(s, k);
	char *p = heap_get(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}

/* -------------------------------------------------------------- engine A */
#define MAX_REG 32
static struct {
	uint8_t *p;
	size_t n;
} reg[MAX_REG];
static int nreg;

extern uint8_t __start_sc_bss[] __attribute__((weak));
extern uint8_t __stop_sc_bss[] __attribute__((weak));
extern uint8_t __start_sc_data[] __attribute__((weak));
extern uint8_t __stop_sc_data[] __attribute__((weak));

void mc_region(void *p, size_t n)
{
	if (nreg >= MAX_REG)
		_exit(97);
	reg[nreg].p = p;
	reg[nreg++].n = n;
}

void mc_regions_clear(void)
{
	nreg = 0;
	mc_region(&heap, sizeof(heap));
	if (&__start_sc_bss[0] != &__stop_sc_bss[0])
		mc_region(__start_sc_bss,
			  (size_t) (__stop_sc_bss - __start_sc_bss));
	if (&__start_sc_data[0] != &__stop_sc_data[0])
		mc_region(__start_sc_data,
			  (size_t) (__stop_sc_data - __start_sc_data));
}

/* raw copies that ASan must not check (global redzones, poisoned arena) */
__attribute__((no_sanitize("address"), noinline)) static void
raw_copy(uint8_t *d, const uint8_t *s, size_t n)
{
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		uint64_t w;
		__builtin_memcpy(&w, s + i, 8);
		__builtin_memcpy(d + i, &w, 8);
	}
	for (; i < n; i++)
		d[i] = s[i];
}

static size_t snap_size(void)
{
	size_t t = 0;
	uint32_t e = heap_end();

	for (int i = 1; i < nreg; i++)
		t += reg[i].n;
	return t + 8 + heap.n * sizeof(struct blk) + e;
}

static size_t snap_save(uint8_t *d)
{
	uint8_t *s = d;
	uint32_t e = heap_end();

	raw_copy(d, (uint8_t *) &heap.n, 4);
	raw_copy(d + 4, (uint8_t *) &e, 4);
	d += 8;
	raw_copy(d, (uint8_t *) heap.b, heap.n * sizeof(struct blk));
	d += heap.n * sizeof(struct blk);
	raw_copy(d, arena, e);
	d += e;
	for (int i = 1; i < nreg; i++) {
		raw_copy(d, reg[i].p, reg[i].n);
		d += reg[i].n;
	}
	return (size_t) (d - s);
}

static void snap_load(const uint8_t *s)
{
	uint32_t n, e, old = heap_end();

	memcpy(&n, s, 4);
	memcpy(&e, s + 4, 4);
	s += 8;
	memset(&heap, 0, sizeof(heap));
	heap.n = n;
	memcpy(heap.b, s, n * sizeof(struct blk));
	s += n * sizeof(struct blk);
	if (arena_hw > old)
		old = arena_hw;
	if (e > old)
		old = e;
	ASAN_POISON_MEMORY_REGION(arena, old);
	raw_copy(arena, s, e);
	if (old > e) {
		static uint8_t dd[4096];
		if (!dd[0])
			memset(dd, 0xDD, sizeof(dd));
		for (uint32_t o = e; o < old; o += 4096)
			raw_copy(arena + o, dd, old - o < 4096 ? old - o : 4096);
	}
	arena_hw = e;
	s += e;
	for (uint32_t i = 0; i < n; i++)
		ASAN_UNPOISON_MEMORY_REGION(arena + heap.b[i].off,
					    heap.b[i].size);
	for (int i = 1; i < nreg; i++) {
		raw_copy(reg[i].p, s, reg[i].n);
		s += reg[i].n;
	}
}

struct node {
	uint32_t parent;
	uint16_t op;
	uint16_t fail;
};

static struct {
	const struct mc_sys *sys;
	struct node *nodes;
	uint32_t n, cap;
	uint32_t cur;	 /* node being expanded */
	int op, fail;	 /* in flight, -1: none */
	const char *phase;
} bfs;

static void bfs_trace(FILE *f)
{
	static uint32_t chain[1 << 16];
	int n = 0;
	char b[256];

	if (!bfs.nodes)
		return;
	for (uint32_t i = bfs.cur; i && n < (1 << 16) - 1; i = bfs.nodes[i].parent)
		chain[n++] = i;
	fprintf(f, "path ");
	for (int i = n - 1; i >= 0; i--)
		fprintf(f, "%d:%d ", bfs.nodes[chain[i]].op,
			bfs.nodes[chain[i]].fail);
	if (bfs.op >= 0)
		fprintf(f, "%d:%d", bfs.op, bfs.fail);
	fprintf(f, "\n");
	for (int i = n - 1; i >= -1; i--) {
		int op = i >= 0 ? bfs.nodes[chain[i]].op : bfs.op;
		int fl = i >= 0 ? bfs.nodes[chain[i]].fail : bfs.fail;
		if (op < 0)
			continue;
		b[0] = 0;
		if (bfs.sys->opname)
			bfs.sys->opname(op, b, sizeof(b));
		fprintf(f, "#   step %d: %s", n - i, b);
		if (fl)
			fprintf(f, "  [allocation %d of this step fails]", fl);
		fprintf(f, "\n");
	}
	fprintf(f, "#   during: %s\n", bfs.phase);
}

/* after an op: observe on a scratch copy, so that checks leave no trace */
static void bfs_observe(const uint8_t *snap)
{
	const struct mc_sys *s = bfs.sys;

	if (s->check) {
		bfs.phase = "observation after the last step";
		mc_alloc_reset(0);
		s->check();
		snap_load(snap);
	}
	if (s->term) {
		bfs.phase = "termination after the last step";
		mc_alloc_reset(0);
		s->term();
		MC_CHECK(mc_live_blocks() == 0, "leak",
			 "%d heap blocks (%zu bytes) still allocated after the "
			 "object was terminated", mc_live_blocks(),
			 mc_live_bytes());
	}
	bfs.phase = "the last step";
}

struct level {
	uint8_t *data;
	size_t len, cap;
	struct {
		size_t off;
		uint32_t node;
	} *ent;
	size_t n, ncap;
};

static void level_add(struct level *l, const uint8_t *d, size_t n, uint32_t node)
{
	if (l->len + n > l->cap) {
		l->cap = (l->len + n) * 2 + 4096;
		l->data = realloc(l->data, l->cap);
	}
	if (l->n == l->ncap) {
		l->ncap = l->ncap * 2 + 64;
		l->ent = realloc(l->ent, l->ncap * sizeof(*l->ent));
	}
	if (!l->data || !l->ent)
		_exit(99);
	memcpy(l->data + l->len, d, n);
	l->ent[l->n].off = l->len;
	l->ent[l->n++].node = node;
	l->len += n;
}

static uint32_t node_add(uint32_t parent, int op, int fail)
{
	if (bfs.n == bfs.cap) {
		bfs.cap = bfs.cap * 2 + 1024;
		bfs.nodes = realloc(bfs.nodes, bfs.cap * sizeof(*bfs.nodes));
		if (!bfs.nodes)
			_exit(99);
	}
	if (op < 0 || op > UINT16_MAX || fail < 0 || fail > UINT16_MAX) {
		/* the trace could not be replayed */
		fprintf(stderr, "operation %d or failure %d out of range\n", op, fail);
		_exit(98);
	}
	bfs.nodes[bfs.n].parent = parent;
	bfs.nodes[bfs.n].op = (uint16_t) op;
	bfs.nodes[bfs.n].fail = (uint16_t) fail;
	return bfs.n++;
}

/* sampled histories are executed again from the initial state, without
 * snapshots, and have to end in the very same state */
#define MAX_VAL 4000
static struct {
	uint32_t node;
	uint64_t h;
} val[MAX_VAL];
static int nval;
static uint32_t val_every;

static void bfs_validate(const uint8_t *pre, uint8_t *tmp)
{
	static uint32_t chain[1 << 16];

	for (int v = 0; v < nval; v++) {
		int n = 0;
		size_t len;

		for (uint32_t i = val[v].node; i && n < (1 << 16) - 1;
		     i = bfs.nodes[i].parent)
			chain[n++] = i;
		snap_load(pre);
		mc_heap_reset();
		bfs.cur = 0;
		bfs.op = -1;
		bfs.phase = "re-execution of a history";
		bfs.sys->init();
		for (int i = n - 1; i >= 0; i--) {
			struct node *d = &bfs.nodes[chain[i]];
			mc_alloc_reset(d->fail);
			ticks++;
			bfs.sys->apply(d->op);
			bfs.cur = chain[i];
		}
		len = snap_save(tmp);
		if (mc_hash(tmp, len, 11) != val[v].h) {
			report("nondeterminism",
			       "the same history led to a different state");
			_exit(1);
		}
		mc_validated++;
	}
}

void mc_bfs(const struct mc_sys *s)
{
	static uint8_t pre[1 << 20];
	static uint8_t tmp[ARENA_SIZE + (1 << 16)];
	struct hset seen = {0};
	struct level cur = {0}, nxt = {0};
	size_t len;
	int depth, complete = 0;
	bool capped = false;

	engine = ENG_BFS;
	if (nreg == 0)
		mc_regions_clear();
	memset(&bfs, 0, sizeof(bfs));
	bfs.sys = s;
	bfs.op = -1;
	bfs.phase = "initialization";
	node_add(0, 0, 0);
	mc_heap_reset();
	if (snap_size() > sizeof(pre))
		_exit(96);
	snap_save(pre);
	nval = 0;
	val_every = 16;
	s->init();
	bfs.phase = "the last step";
	if (snap_size() > sizeof(tmp))
		_exit(96);
	len = snap_save(tmp);

	if (mc_replaying) {
		char *p = replay_path;
		int op, fl, k;

		bfs_observe(tmp);
		snap_load(tmp);
		while (sscanf(p, "%d:%d%n", &op, &fl, &k) == 2) {
			p += k;
			bfs.op = op;
			bfs.fail = fl;
			mc_alloc_reset(fl);
			s->apply(op);
			len = snap_save(tmp);
			bfs_observe(tmp);
			snap_load(tmp);
			bfs.cur = node_add(bfs.cur, op, fl);
			bfs.op = -1;
		}
		engine = ENG_NONE;
		return;
	}

	hset_add(&seen, mc_hash(tmp, len, 11), mc_hash(tmp, len, 12));
	level_add(&cur, tmp, len, 0);
	mc_states++;
	bfs_observe(tmp);

	for (depth = 0; depth < s->max_depth && cur.n; depth++) {
		for (size_t i = 0; i < cur.n; i++) {
			if (seen.n >= 4 * s->max_states || over_time()) {
				capped = true;
				break;
			}
			bfs.cur = cur.ent[i].node;
			for (int op = 0; op < s->nops; op++) {
				long nalloc = 0;
				for (long f = 0; f <= nalloc; f++) {
					if (f && !s->faults)
						break;
					snap_load(cur.data + cur.ent[i].off);
					bfs.op = op;
					bfs.fail = (int) f;
					mc_alloc_reset(f);
					ticks++;
					if (!s->apply(op))
						break;
					if (f == 0)
						nalloc = mc_alloc_calls;
					mc_transitions++;
					len = snap_save(tmp);
					if (!hset_add(&seen,
						      mc_hash(tmp, len, 11),
						      mc_hash(tmp, len, 12)))
						continue;
					mc_states++;
					bfs_observe(tmp);
					uint32_t nd = node_add(bfs.cur, op,
							       (int) f);
					if (nd % val_every == 0 &&
					    nval < MAX_VAL) {
						val[nval].node = nd;
						val[nval++].h =
							mc_hash(tmp, len, 11);
						if (nval % 1000 == 0)
							val_every *= 8;
					}
					if (seen.n < s->max_states)
						level_add(&nxt, tmp, len, nd);
					else
						capped = true;
				}
			}
		}
		if (!capped)
			complete = depth + 1;
		free(cur.data);
		free(cur.ent);
		cur = nxt;
		memset(&nxt, 0, sizeof(nxt));
	}
	if (capped)
		mc_incomplete("state cap reached");
	mc_count(capped	 ? "searches_to_state_cap" :
		 cur.n	 ? "searches_to_depth_bound" :
			   "searches_to_fixpoint",
		 1);
	/* a sample history: the last node found */
	if (bfs.n > 1) {
		char b[1024] = "", o[200];
		uint32_t chain[64];
		int n = 0;
		uint32_t pick = bfs.n - 1;

		for (uint32_t j = pick; j && n < 64; j = bfs.nodes[j].parent)
			chain[n++] = j;
		for (int j = n - 1; j >= 0; j--) {
			o[0] = 0;
			s->opname(bfs.nodes[chain[j]].op, o, sizeof(o));
			if (bfs.nodes[chain[j]].fail)
				strcat(o, "!oom");
			if (strlen(b) + strlen(o) + 4 < sizeof(b)) {
				strcat(b, o);
				strcat(b, "; ");
			}
		}
		mc_sample("{%s} all histories to depth %d, e.g. %s", cur_cfg,
			  complete, b);
	}
	bfs_validate(pre, tmp);
	free(cur.data);
	free(cur.ent);
	free(seen.t);
	free(bfs.nodes);
	bfs.nodes = NULL;
	engine = ENG_NONE;
}

/* -------------------------------------------------------------- engine B */
#define MAX_CH 65536
static struct {
	uint32_t v, n; /* a choice can have more than 65535 values */
	uint8_t dev;
} ch[MAX_CH];
static int ch_pos, ch_len, dev_used, dev_max;

static int choose(int n, int dev)
{
	if (n <= 1)
		return 0;
	if (ch_pos >= MAX_CH)
		_exit(95);
	if (ch_pos == ch_len) {
		ch[ch_len].v = 0;
		ch[ch_len].n = (uint32_t) n;
		ch[ch_len].dev = (uint8_t) dev;
		if (dev && dev_used >= dev_max)
			ch[ch_len].n = 1;
		ch_len++;
	}
	int v = (int) ch[ch_pos].v;
	if (dev && v)
		dev_used++;
	if (v >= n) {
		report("nondeterminism", "re-executing the same choices led "
					 "to a different behaviour");
		_exit(1);
	}
	ch_pos++;
	return v;
}

int mc_choose(int n)
{
	return choose(n, 0);
}

int mc_choose_dev(int n)
{
	return choose(n, 1);
}

int mc_dev_left(void)
{
	return dev_max - dev_used;
}

void mc_prune(void)
{
	longjmp(prune_jmp, 1);
}

static void dfs_trace(FILE *f)
{
	fprintf(f, "path ");
	for (int i = 0; i < ch_pos; i++)
		fprintf(f, "%d ", ch[i].v);
	fprintf(f, "\n");
}

void mc_dfs(void (*run)(void), int max_dev, uint64_t limit)
{
	static uint64_t runs, max_runs;

	runs = 0;
	max_runs = limit;
	engine = ENG_DFS;
	ch_len = 0;
	dev_max = max_dev;
	if (mc_replaying) {
		char *p = replay_path, *e;
		long v;
		for (;; p = e) {
			v = strtol(p, &e, 10);
			if (e == p)
				break;
			ch[ch_len].v = (uint32_t) v;
			ch[ch_len++].n = UINT32_MAX;
		}
		dev_max = 1 << 20;
		max_runs = 1;
	}
	for (;;) {
		ch_pos = 0;
		dev_used = 0;
		ticks++;
		mc_note_reset();
		if (!setjmp(prune_jmp)) {
			run();
			mc_evals++;
			mc_transitions += (uint64_t) ch_pos;
		}
		if (ch_pos < ch_len)
			ch_len = ch_pos;
		while (ch_len && ch[ch_len - 1].v + 1 >= ch[ch_len - 1].n)
			ch_len--;
		if (!ch_len)
			break;
		if (over_time())
			break;
		if (++runs >= max_runs) {
			if (!mc_replaying)
				mc_incomplete("execution cap reached");
			break;
		}
		ch[ch_len - 1].v++;
	}
	engine = ENG_NONE;
	mc_note_reset();
}

static void engine_trace(FILE *f)
{
	if (engine == ENG_BFS)
		bfs_trace(f);
	else if (engine == ENG_DFS)
		dfs_trace(f);
}
