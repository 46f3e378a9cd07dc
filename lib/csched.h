/* Engine C: model threads under a controlled scheduler.
 *
 * Library code compiled with -fsanitize=thread calls the hooks in sched.c for
 * every memory access (data race detection by happens-before) and the pthread
 * functions redirected to mc_pthread_* (scheduling points).  Every schedule is
 * a sequence of mc_choose() results, so engine B enumerates them; a switch away
 * from a thread that could go on costs one deviation (a preemption). */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <pthread.h>

#define SCHED_MAXT 8
void sched_reset(void); /* before each execution */
int sched_spawn(void (*fn)(void *), void *arg); /* before sched_run() */
/* runs until every thread ended (0) or none can go on (number of threads left) */
int sched_run(void);
int sched_self(void); /* -1: not in a model thread */
bool sched_finished(int t);
/* a scheduling point before a visible action of the environment */
void sched_point(const char *what);
/* blocks until *cond(arg) is true */
void sched_wait(const char *what, bool (*cond)(void *), void *arg);
uint64_t sched_clock(void); /* grows with every scheduling point */
extern bool sched_spurious; /* condition waits may wake up spuriously (costs) */
extern bool sched_first;    /* no choice: the running thread goes on, then the first */
extern bool sched_races;    /* report data races (default) */
void sched_globals(int save); /* library globals; save once, restore per run */
/* memory accesses of stand-ins for C library functions */
void sched_read(const void *p, size_t n);
void sched_write(const void *p, size_t n);
void sched_fresh(const void *p, size_t n);
/* environment-side synchronisation for stand-ins (e.g. an eventfd) */
void sched_release(const void *obj);
void sched_acquire(const void *obj);
/* pthread objects alive */
int sched_live_mutexes(void);
int sched_live_conds(void);
int sched_live_attrs(void);
int sched_unjoined(void);
/* k-th failing call among pthread_*_init and pthread_create: 0 none */
extern long sched_fail_at, sched_calls;
extern int sched_fail_errno;
extern bool sched_failed;
#endif
