/* Condition, mutex and thread objects under every schedule (engine C).
 * -DCOND, -DMUTEX or -DTHREAD */
#define _GNU_SOURCE
#include "csched.h"
#include <errno.h>
#include <string.h>
#ifdef COND
#include "sc_cond.h"
#elif defined(MUTEX)
#include "sc_mutex.h"
#else
#include "sc_thread.h"
#endif

#define GARBAGE 0xA5
static long runs;

static void explore(void (*run)(void), int dev)
{
	mc_dfs(run, dev, mc_thorough ? 8000000 : 400000);
}

#ifdef COND
/* ---- latched event: one slot, the last signal wins, a wait takes it ----------- */
enum { SIGNAL, WAIT };
#define MAXOPS 8
struct op {
	int kind, thread;
	uintptr_t val;
	uint64_t inv, res; /* res 0: pending */
	bool started;
};
static struct op ops[MAXOPS];
static int nops, nthreads;
static struct sc_cond *c;
static char mem[sizeof(struct sc_cond) + 16] __attribute__((aligned(16)));

static void body(void *arg)
{
	int t = (int) (intptr_t) arg;

	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		if (o->thread != t)
			continue;
		o->inv = sched_clock() * 2 + 1;
		o->started = true;
		if (o->kind == SIGNAL)
			sc_cond_signal(c, (void *) o->val);
		else
			o->val = (uintptr_t) sc_cond_wait(c);
		o->res = sched_clock() * 2 + 2;
	}
}

static bool lin_rec(unsigned done, bool full, uintptr_t slot)
{
	uint64_t minres = UINT64_MAX;
	bool left = false;

	for (int i = 0; i < nops; i++)
		if (!(done >> i & 1) && ops[i].res) {
			left = true;
			if (ops[i].res < minres)
				minres = ops[i].res;
		}
	if (!left && !full) /* what is pending waits for a signal that never came */
		return true;
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		if ((done >> i & 1) || !o->started || !o->res || o->inv > minres)
			continue;
		if (o->kind == SIGNAL) {
			if (lin_rec(done | 1u << i, true, o->val))
				return true;
		} else if (full && slot == o->val) {
			if (lin_rec(done | 1u << i, false, 0))
				return true;
		}
	}
	if (!left) { /* full: fine only if nobody waits */
		for (int i = 0; i < nops; i++)
			if (!(done >> i & 1) && ops[i].started && ops[i].kind == WAIT)
				return false;
		return true;
	}
	return false;
}

static void cond_run(void)
{
	int left;

	sched_reset();
	memset(mem, GARBAGE, sizeof(mem));
	c = (struct sc_cond *) mem;
	MC_CHECK(sc_cond_init(c) == 0, "init", "sc_cond_init() failed without a reason");
	MC_CHECK(sched_live_mutexes() == 1 && sched_live_conds() == 1 && !sched_live_attrs(),
		 "init-objects", "%d mutexes, %d conditions, %d attributes alive after init",
		 sched_live_mutexes(), sched_live_conds(), sched_live_attrs());
	for (int i = 0; i < nops; i++) {
		ops[i].inv = ops[i].res = 0;
		ops[i].started = false;
		ops[i].val = ops[i].kind == SIGNAL ? 100 + (uintptr_t) i : 0;
	}
	if (nops && ops[0].kind == SIGNAL && ops[0].val == 100 && nops % 2)
		ops[0].val = 0; /* NULL is a value as well */
	for (int t = 0; t < nthreads; t++)
		sched_spawn(body, (void *) (intptr_t) t);
	left = sched_run();
	if (mc_replaying)
		for (int i = 0; i < nops; i++)
			mc_note("thread %d: %s %lu [%lu, %lu]", ops[i].thread,
				ops[i].kind == SIGNAL ? "signal" : "wait", (unsigned long) ops[i].val,
				(unsigned long) ops[i].inv, (unsigned long) ops[i].res);
	for (int i = 0; i < nops; i++)
		MC_CHECK(ops[i].kind == WAIT || !ops[i].started || ops[i].res, "signal-blocks",
			 "sc_cond_signal() never returns");
	MC_CHECK(lin_rec(0, false, 0), left ? "lost-wakeup" : "order",
		 "no order of the calls explains what the waits returned%s",
		 left ? " (a wait sleeps although an event is pending)" : "");
	if (!left) {
		MC_CHECK(sc_cond_term(c) == 0, "term", "sc_cond_term() failed");
		MC_CHECK(sched_live_mutexes() == 0 && sched_live_conds() == 0, "leak",
			 "objects alive after sc_cond_term()");
		MC_CHECK(sc_cond_term(c) == 0, "term2", "second sc_cond_term() failed");
	}
	mc_evals++;
	runs++;
	uint64_t out[MAXOPS * 2];
	for (int i = 0; i < nops; i++) {
		out[2 * i] = ops[i].kind * 1000 + ops[i].thread + (ops[i].res ? 10 : 0);
		out[2 * i + 1] = ops[i].val;
	}
	if (mc_distinct_add(out, sizeof(out[0]) * 2 * (size_t) nops))
		mc_sample("%d threads, %d calls, %d threads left waiting", nthreads, nops, left);
}

static void programs(int threads, int per, int total)
{
	int cnt = threads * per;

	/* every assignment of nothing, signal, wait to the calls of each thread */
	for (int code = 0, n = 1, i = 0; i < cnt; i++, n *= 3)
		if (i == cnt - 1)
			for (code = 0; code < n * 3; code++) {
				int k = code, w = 0;
				bool ok = true, hole = false;
				long key = 0, prev = 1L << 60;

				nops = 0;
				nthreads = threads;
				for (int t = 0; t < threads && ok; t++) {
					key = 0;
					hole = false;
					for (int j = 0; j < per; j++, k /= 3) {
						key = key * 3 + k % 3;
						if (k % 3 == 0) {
							hole = true;
							continue;
						}
						ok &= !hole && nops < MAXOPS;
						if (!ok)
							break;
						w += k % 3 == 2;
						ops[nops++] = (struct op){.kind = k % 3 - 1, .thread = t};
					}
					ok &= key > 0 && key <= prev; /* symmetry */
					prev = key;
				}
				if (!ok || nops > total || !w || w == nops)
					continue;
				char text[80];
				int p = 0;
				for (int a = 0; a < nops; a++)
					p += snprintf(text + p, sizeof(text) - (size_t) p, "%s%c",
						      a && ops[a].thread != ops[a - 1].thread ? "|" : "",
						      ops[a].kind == SIGNAL ? 'S' : 'W');
				for (int sp = 0; sp < 2; sp++) {
					if (!mc_mine("program %s%s", text, sp ? " spurious" : ""))
						continue;
					sched_spurious = sp;
					explore(cond_run, threads == 2 ? (mc_thorough ? 12 : 6)
								       : (mc_thorough ? 4 : 3));
				}
			}
}

static void faults(void)
{
	for (int errn = 0; errn < 2; errn++)
		for (long k = 1;; k++) {
			int rc, e;

			sched_reset();
			memset(mem, GARBAGE, sizeof(mem));
			c = (struct sc_cond *) mem;
			sched_fail_at = k;
			sched_fail_errno = errn ? ENOMEM : EAGAIN;
			errno = 0;
			rc = sc_cond_init(c);
			e = errno;
			if (sched_failed) {
				MC_CHECK(rc < 0, "fail-rc", "init: call %ld fails, result %d", k, rc);
				MC_CHECK(e == sched_fail_errno, "fail-errno", "init: call %ld fails with %d, errno %d",
					 k, sched_fail_errno, e);
				MC_CHECK(!sched_live_mutexes() && !sched_live_conds() && !sched_live_attrs(),
					 "fail-leak", "init: call %ld fails, objects stay alive", k);
				MC_CHECK(sc_cond_term(c) == 0, "fail-term", "term after failed init fails");
				MC_CHECK(sc_cond_init(c) == 0, "fail-again", "second init fails");
				MC_CHECK(sc_cond_term(c) == 0, "fail-again", "term fails");
			} else {
				MC_CHECK(rc == 0, "init", "init fails without a reason");
				errno = 0;
				rc = sc_cond_term(c);
				e = errno;
				if (!sched_failed) {
					MC_CHECK(rc == 0, "term", "term fails without a reason");
					break;
				}
				MC_CHECK(rc < 0, "term-rc", "sc_cond_term() returns %d when a call fails, "
					 "not a negative number", rc);
				MC_CHECK(e == sched_fail_errno, "term-errno", "term: errno %d", e);
				MC_CHECK(sched_live_mutexes() + sched_live_conds() == 1, "term-leak",
					 "%d objects alive after one failed", sched_live_mutexes() + sched_live_conds());
			}
			mc_evals++;
		}
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	if (mc_mine("faults"))
		faults();
	programs(2, 3, 6);
	programs(3, 2, mc_thorough ? 6 : 5);
	if (mc_thorough)
		programs(4, 1, 4);
	return mc_done();
}
#elif defined(MUTEX)
static struct sc_mutex *mtx[2];
static char mem[2][sizeof(struct sc_mutex) + 16] __attribute__((aligned(16)));
static int nthreads, iters, nested;
static int inside[2], counter[2], entered;

static void body(void *arg)
{
	(void) arg;
	for (int i = 0; i < iters; i++) {
		int a = nested == 2 && i % 2, n = nested ? 2 : 1;

		for (int k = 0; k < n; k++) {
			int m = nested == 2 ? (a + k) % 2 : k;
			if (nested == 2 && k)
				break; /* one lock, alternating */
			sc_mutex_lock(mtx[m]);
			MC_CHECK(inside[m]++ == 0, "exclusion", "two threads hold the mutex");
			entered++;
			sched_read(&counter[m], sizeof(int));
			int v = counter[m];
			sched_point("inside");
			sched_write(&counter[m], sizeof(int));
			counter[m] = v + 1;
		}
		for (int k = n - 1; k >= 0; k--) {
			int m = nested == 2 ? (a + k) % 2 : k;
			if (nested == 2 && k)
				continue;
			inside[m]--;
			sc_mutex_unlock(mtx[m]);
		}
	}
}

static void mutex_run(void)
{
	int left;

	sched_reset();
	memset(mem, GARBAGE, sizeof(mem));
	memset(inside, 0, sizeof(inside));
	memset(counter, 0, sizeof(counter));
	entered = 0;
	for (int i = 0; i < 2; i++) {
		mtx[i] = (struct sc_mutex *) mem[i];
		MC_CHECK(sc_mutex_init(mtx[i]) == 0, "init", "sc_mutex_init() failed without a reason");
	}
	MC_CHECK(sched_live_mutexes() == 2 && !sched_live_attrs(), "init-objects",
		 "%d mutexes, %d attributes after init", sched_live_mutexes(), sched_live_attrs());
	for (int t = 0; t < nthreads; t++)
		sched_spawn(body, NULL);
	left = sched_run();
	MC_CHECK(!left, "deadlock", "%d threads never get the mutex", left);
	MC_CHECK(counter[0] + counter[1] == entered, "lost-update", "lost update in a critical section");
	for (int i = 0; i < 2; i++)
		MC_CHECK(sc_mutex_term(mtx[i]) == 0, "term", "sc_mutex_term() failed");
	MC_CHECK(!sched_live_mutexes(), "leak", "mutex alive after sc_mutex_term()");
	mc_evals++;
	mc_distinct_add(&(uint64_t[]){sched_clock(), nthreads, iters, nested}, 32);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	if (mc_mine("faults"))
		for (long k = 1;; k++) {
			int rc;

			sched_reset();
			memset(mem, GARBAGE, sizeof(mem));
			mtx[0] = (struct sc_mutex *) mem[0];
			sched_fail_at = k;
			sched_fail_errno = ENOMEM;
			rc = sc_mutex_init(mtx[0]);
			if (sched_failed) {
				MC_CHECK(rc == -1, "fail-rc", "init: call %ld fails, result %d", k, rc);
				MC_CHECK(!sched_live_mutexes() && !sched_live_attrs(), "fail-leak",
					 "init: call %ld fails, objects stay alive", k);
				MC_CHECK(sc_mutex_init(mtx[0]) == 0, "fail-again", "second init fails");
				MC_CHECK(sc_mutex_term(mtx[0]) == 0, "fail-again", "term fails");
			} else {
				MC_CHECK(rc == 0, "init", "init fails without a reason");
				rc = sc_mutex_term(mtx[0]);
				MC_CHECK(rc == (sched_failed ? -1 : 0), "term-rc", "term returns %d", rc);
				if (!sched_failed)
					break;
			}
			mc_evals++;
		}
	for (nthreads = 2; nthreads <= (mc_thorough ? 4 : 3); nthreads++)
		for (iters = 1; iters <= (nthreads == 2 ? 4 : 2); iters++)
			for (nested = 0; nested < 3; nested++)
				if (mc_mine("%d threads, %d rounds, nested %d", nthreads, iters, nested)) {
					explore(mutex_run, nthreads == 2 ? (mc_thorough ? 40 : 8) : mc_thorough ? 5 : 4);
					mc_sample("%d threads, %d rounds, nested %d", nthreads, iters, nested);
				}
	return mc_done();
}
#else
/* ---- threads ----------------------------------------------------------------------- */
#define NT 2
static struct sc_thread *thr[NT];
static char mem[NT][sizeof(struct sc_thread) + 16] __attribute__((aligned(16)));
static int ran[8], argok, fnno;
static int payload[8];

static void *fn(void *arg)
{
	int i = (int) ((int *) arg - payload);

	sched_read(&payload[i], sizeof(int));
	if (payload[i] != 1000 + i)
		argok = 0;
	ran[i]++;
	sched_point("thread");
	sched_write(&payload[i], sizeof(int));
	payload[i] = 2000 + i;
	return i % 2 ? NULL : &payload[i];
}

enum { START, JOIN, JOINNULL, TERM, NOPS };
static int prog[6], nprog;
static long failk;

static void owner(void *arg)
{
	int live[NT];

	(void) arg;
	for (int i = 0; i < NT; i++)
		live[i] = -1;
	for (int p = 0; p < nprog; p++) {
		int t = prog[p] / NOPS, op = prog[p] % NOPS, rc;
		bool before = sched_failed, now;
		void *ret = (void *) 0x5a5a;

		if (op == START) {
			int i = fnno++;
			payload[i] = 1000 + i;
			sched_write(&payload[i], sizeof(int));
			rc = sc_thread_start(thr[t], fn, &payload[i]);
			now = sched_failed && !before;
			if (now) {
				MC_CHECK(rc == -1, "start-rc", "a failing start returns %d, not -1", rc);
				MC_CHECK(!strcmp(sc_thread_err(thr[t]), strerror(sched_fail_errno)), "err",
					 "error text '%s' after a failed start", sc_thread_err(thr[t]));
				ran[i] = -1;
			} else {
				MC_CHECK(rc == 0, "start", "start fails without a reason: %d", rc);
				live[t] = i;
			}
		} else {
			rc = op == TERM ? sc_thread_term(thr[t]) :
					  sc_thread_join(thr[t], op == JOIN ? &ret : NULL);
			now = sched_failed && !before;
			if (now) {
				MC_CHECK(rc == -1, "join-rc", "a failing join returns %d, not -1", rc);
				MC_CHECK(!strcmp(sc_thread_err(thr[t]), strerror(sched_fail_errno)), "err",
					 "error text '%s' after a failed join", sc_thread_err(thr[t]));
			} else {
				MC_CHECK(rc == 0, "join", "join fails without a reason: %d", rc);
				if (live[t] >= 0) {
					int i = live[t];
					MC_CHECK(ran[i] == 1, "join-early", "join returned, the function ran %d times", ran[i]);
					sched_read(&payload[i], sizeof(int));
					MC_CHECK(payload[i] == 2000 + i, "join-early", "join returned before the function ended");
					MC_CHECK(op != JOIN || ret == (i % 2 ? NULL : (void *) &payload[i]),
						 "join-ret", "wrong result of the thread function");
				} else {
					MC_CHECK(op != JOIN || ret == NULL, "join-ret", "result of a thread that was not started");
				}
			}
			live[t] = -1;
		}
	}
}

static void thread_run(void)
{
	int left;

	sched_reset();
	memset(mem, GARBAGE, sizeof(mem));
	memset(ran, 0, sizeof(ran));
	argok = 1;
	fnno = 0;
	sched_fail_at = failk;
	sched_fail_errno = EAGAIN;
	for (int i = 0; i < NT; i++) {
		thr[i] = (struct sc_thread *) mem[i];
		sc_thread_init(thr[i]);
		MC_CHECK(memchr(sc_thread_err(thr[i]), 0, sizeof(mem[0]) - (size_t) (sc_thread_err(thr[i]) - mem[i])) != NULL &&
				 !sc_thread_err(thr[i])[0],
			 "err-init", "the error text is not initialised");
	}
	sched_spawn(owner, NULL);
	left = sched_run();
	MC_CHECK(!left, "block", "%d threads never end", left);
	MC_CHECK(argok, "arg", "wrong argument for the thread function");
	for (int i = 0; i < fnno; i++)
		MC_CHECK(ran[i] == 1 || ran[i] == -1, "once", "a started function ran %d times", ran[i]);
	MC_CHECK(!sched_live_attrs(), "leak", "thread attributes are not destroyed");
	if (!sched_failed)
		MC_CHECK(sched_unjoined() == 0, "leak", "%d threads were not joined", sched_unjoined());
	mc_evals++;
	if (mc_distinct_add(&(uint64_t[]){sched_clock(), nprog, prog[0], prog[1], prog[2], prog[3], failk}, 56))
		mc_sample("program %d %d %d %d, fail %ld", prog[0], prog[1], prog[2], prog[3], failk);
}

int main(int argc, char **argv)
{
	int max = mc_thorough ? 5 : 4;

	mc_init(argc, argv);
	for (int n = 1; n <= max; n++) {
		int total = 1;
		for (int i = 0; i < n; i++)
			total *= NOPS * NT;
		for (int code = 0; code < total; code++) {
			bool live[NT] = {0}, ok = true;
			int c = code;
			for (int i = 0; i < n; i++, c /= NOPS * NT) {
				int t = c % (NOPS * NT) / NOPS;
				prog[i] = c % (NOPS * NT);
				if (prog[i] % NOPS == START)
					ok &= !live[t];
				live[t] = prog[i] % NOPS == START;
			}
			for (int i = n; i < 6; i++)
				prog[i] = 0;
			/* the owner ends by joining what is left */
			nprog = n;
			for (int t = 0; t < NT; t++)
				if (live[t])
					nprog < 6 ? (void) (prog[nprog++] = t * NOPS + TERM) : (void) (ok = false);
			if (!ok || !mc_mine("program of %d calls, code %d", n, code))
				continue;
			failk = 0;
			explore(thread_run, mc_thorough ? 6 : 4);
			for (failk = 1; failk <= 12; failk++) {
				explore(thread_run, 1);
				if (!sched_failed)
					break;
			}
		}
	}
	return mc_done();
}
#endif
