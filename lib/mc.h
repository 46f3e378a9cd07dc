/* Explicit-state and stateless exploration engines used by every harness. */
#ifndef MC_H
#define MC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

/* ---- life cycle ------------------------------------------------------- */
extern int mc_thorough;  /* tier */
extern int mc_shard, mc_nshards;
extern int mc_replaying; /* --replay given */
extern unsigned long mc_seed;
void mc_init(int argc, char **argv);
int mc_done(void); /* writes the result file, returns exit code */

/* the part of the space now explored; recorded in the replay file */
void mc_config(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* true if this shard has to explore the current configuration number */
bool mc_mine(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* free text describing the current execution, reset by the engines */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_note_reset(void);

/* violation: never returns unless the signature is a listed finding */
void mc_fail(const char *sig, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
#define MC_CHECK(c, sig, ...)                                                  \
	do {                                                                   \
		if (!(c))                                                      \
			mc_fail(sig, __VA_ARGS__);                             \
	} while (0)

/* progress marker for the hang watchdog (CPU time) */
void mc_tick(void);

/* ---- measured coverage ------------------------------------------------- */
extern uint64_t mc_states, mc_transitions, mc_evals, mc_distinct, mc_validated;
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_count(const char *name, uint64_t n); /* named extra counters */
void mc_incomplete(const char *why);	     /* a bound was hit */
/* distinct outcome hash set; true if new */
bool mc_distinct_add(const void *p, size_t n);
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);

/* ---- deterministic heap ------------------------------------------------ */
void *mc_malloc(size_t n);
void *mc_calloc(size_t a, size_t b);
void *mc_realloc(void *p, size_t n);
void mc_free(void *p);
char *mc_strdup(const char *s);
char *mc_strndup(const char *s, size_t n);
extern uint8_t mc_fill;	       /* byte new memory is filled with */
extern long mc_fail_at;	       /* k-th allocation fails (1-based), 0: none */
extern int mc_fail_sticky;     /* every allocation from the k-th on fails */
extern long mc_alloc_calls;    /* allocations attempted since reset */
extern long mc_alloc_failed;   /* of these, failed */
extern size_t mc_arena_limit;  /* larger requests fail like real ones */
extern size_t mc_big_limit;    /* larger blocks than mc_arena_limit, up to this (not with engine A) */
extern bool mc_allow_huge;      /* sizes over the limit are asked for on purpose */
extern bool mc_no_reuse;        /* freed memory is not used again */
void mc_heap_reset(void);      /* empty heap */
void mc_alloc_reset(long fail_at);
int mc_live_blocks(void);
size_t mc_live_bytes(void);
bool mc_heap_owns(const void *p, size_t n); /* inside one live block */

/* ---- engine A: breadth first search over real object states ------------- */
struct mc_sys {
	void (*init)(void);	   /* build the initial state */
	int nops;
	bool (*apply)(int op);	   /* false: not enabled here (no effect) */
	void (*check)(void);	   /* full observation, may change the state */
	void (*term)(void);	   /* ends the object; the heap must be empty */
	void (*opname)(int op, char *buf, size_t n);
	bool faults;		   /* also explore each allocation failing */
	int max_depth;
	uint64_t max_states;
};
void mc_region(void *p, size_t n); /* memory that is part of the state */
void mc_regions_clear(void);
void mc_bfs(const struct mc_sys *s);

/* ---- engine B: stateless depth first search over choices ---------------- */
int mc_choose(int n);		   /* 0..n-1, explored exhaustively */
int mc_choose_dev(int n);	   /* same, but value!=0 costs one deviation */
void mc_dfs(void (*run)(void), int max_dev, uint64_t max_runs);
void mc_prune(void) __attribute__((noreturn)); /* abandon this execution */
int mc_dev_left(void);

#endif
