#define _GNU_SOURCE
#include "csched.h"
#include <errno.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define STACK (256 * 1024)
#define NVC (SCHED_MAXT + 1) /* the last one: code outside of model threads */
#define OUT SCHED_MAXT

struct vc {
	uint32_t c[NVC];
};

struct thr {
	void *sp;
	void (*fn)(void *);
	void *(*pfn)(void *);
	void *arg, *ret;
	bool done, joined, detached, created_by_lib;
	bool (*cond)(void *); /* NULL: can run */
	void *carg;
	const char *at;
	struct vc vc;
	int err;
	char tls[1024];
};

static struct thr th[SCHED_MAXT];
static char *stacks;
static int nthr, cur = -1;
static void *main_sp;
static struct vc out_vc;
static uint64_t steps;
static struct vc end_vc;

bool sched_spurious, sched_races = true, sched_failed, sched_first;
long sched_fail_at, sched_calls;
int sched_fail_errno;

/* ---- context switch ------------------------------------------------------ */
void sched_switch(void **from, void *to);
__asm__(".text\n.globl sched_switch\nsched_switch:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

/* thread local variables of the program (not of the C library) */
static char *tls_base;
static const char *tls_init;
static size_t tls_size, tls_fsize;

static int find_tls(struct dl_phdr_info *i, size_t n, void *arg)
{
	(void) n;
	(void) arg;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS) {
			tls_base = i->dlpi_tls_data;
			tls_size = i->dlpi_phdr[k].p_memsz;
			tls_fsize = i->dlpi_phdr[k].p_filesz;
			tls_init = (const char *) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
		}
	return 1; /* only the program itself */
}

static void to_main(void)
{
	sched_switch(&th[cur].sp, main_sp);
}

static void entry(void)
{
	struct thr *t = &th[cur];

	if (t->pfn)
		t->ret = t->pfn(t->arg);
	else
		t->fn(t->arg);
	t->done = true;
	to_main();
	abort();
}

/* ---- vector clocks -------------------------------------------------------- */
static int me(void)
{
	return cur < 0 ? OUT : cur;
}
static struct vc *myvc(void)
{
	return cur < 0 ? &out_vc : &th[cur].vc;
}
static void join_vc(struct vc *a, const struct vc *b)
{
	for (int i = 0; i < NVC; i++)
		if (b->c[i] > a->c[i])
			a->c[i] = b->c[i];
}

#define NSYNC 256
static struct sync {
	const void *obj;
	struct vc vc;
} syncs[NSYNC];
static int nsync;

static struct sync *sync_of(const void *obj)
{
	for (int i = 0; i < nsync; i++)
		if (syncs[i].obj == obj)
			return &syncs[i];
	if (nsync == NSYNC)
		mc_fail("harness", "too many synchronisation objects");
	syncs[nsync].obj = obj;
	memset(&syncs[nsync].vc, 0, sizeof(struct vc));
	return &syncs[nsync++];
}
void sched_release(const void *obj)
{
	join_vc(&sync_of(obj)->vc, myvc());
	myvc()->c[me()]++;
}
void sched_acquire(const void *obj)
{
	join_vc(myvc(), &sync_of(obj)->vc);
}

/* shadow memory: one cell per byte, hashed; cleared per execution */
struct cell {
	uintptr_t addr;
	uint32_t gen;
	uint32_t wclk;
	int8_t wtid; /* -1: none */
	uint32_t rclk[NVC];
};
#define NCELL (1 << 16)
static struct cell *cells;
static uint32_t gen;

static struct cell *cell_of(uintptr_t a)
{
	uint32_t h = (uint32_t) ((a * 0x9E3779B97F4A7C15u) >> 40) & (NCELL - 1);
	int n = 0;

	for (;; h = (h + 1) & (NCELL - 1)) {
		struct cell *c = &cells[h];
		if (c->gen != gen) {
			memset(c, 0, sizeof(*c));
			c->gen = gen;
			c->addr = a;
			c->wtid = -1;
			return c;
		}
		if (c->addr == a)
			return c;
		if (++n > 2000)
			mc_fail("harness", "shadow memory full");
	}
}

static bool own_stack(uintptr_t a)
{
	if (cur < 0)
		return true;
	return a >= (uintptr_t) stacks + (uintptr_t) cur * STACK &&
	       a < (uintptr_t) stacks + (uintptr_t) (cur + 1) * STACK;
}
static bool in_tls(uintptr_t a)
{
	return a >= (uintptr_t) tls_base && a < (uintptr_t) tls_base + tls_size;
}

extern char __start_sc_bss[] __attribute__((weak)), __stop_sc_bss[] __attribute__((weak));
static const char *where(const char *a)
{
	static char buf[60];
	if (a >= __start_sc_bss && a < __stop_sc_bss)
		snprintf(buf, sizeof(buf), "library data + %ld", (long) (a - __start_sc_bss));
	else
		snprintf(buf, sizeof(buf), "address %p", (void *) a);
	return buf;
}

static void mem_access(const void *p, size_t n, bool wr)
{
	struct vc *v = myvc();
	int m = me();

	if (cur < 0 || !sched_races || own_stack((uintptr_t) p) || in_tls((uintptr_t) p) ||
	    p == (const void *) &errno)
		return;
	for (size_t i = 0; i < n; i++) {
		struct cell *c = cell_of((uintptr_t) p + i);
		if (c->wtid >= 0 && c->wtid != m && c->wclk > v->c[c->wtid])
			mc_fail("race", "data race: thread %d %s memory thread %d writes "
				"(no happens-before): %s", m, wr ? "writes" : "reads", c->wtid,
				where((const char *) p + i));
		if (wr) {
			for (int t = 0; t < NVC; t++)
				if (t != m && c->rclk[t] > v->c[t])
					mc_fail("race", "data race: thread %d writes memory "
						"thread %d reads (no happens-before): %s", m, t,
						where((const char *) p + i));
			c->wtid = (int8_t) m;
			c->wclk = v->c[m];
		} else {
			c->rclk[m] = v->c[m];
		}
	}
}
void sched_read(const void *p, size_t n)
{
	mem_access(p, n, false);
}
void sched_write(const void *p, size_t n)
{
	mem_access(p, n, true);
}

/* memory newly given out by the environment (its address may have been used before) */
void sched_fresh(const void *p, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		struct cell *c = cell_of((uintptr_t) p + i);
		c->wtid = -1;
		memset(c->rclk, 0, sizeof(c->rclk));
	}
}

/* ---- scheduling ------------------------------------------------------------ */
static void load_tls(char *to, const char *from)
{
	if (tls_size)
		memcpy(to, from, tls_size);
}

int sched_self(void)
{
	return cur;
}
bool sched_finished(int t)
{
	return th[t].done;
}
uint64_t sched_clock(void)
{
	return steps;
}

static int new_thread(void (*fn)(void *), void *(*pfn)(void *), void *arg)
{
	struct thr *t = &th[nthr];
	void **sp;

	if (nthr == SCHED_MAXT)
		mc_fail("harness", "too many threads");
	memset(t, 0, sizeof(*t));
	t->fn = fn;
	t->pfn = pfn;
	t->arg = arg;
	t->at = "start";
	t->vc = *myvc();
	t->vc.c[nthr]++;
	myvc()->c[me()]++;
	if (tls_size) {
		memset(t->tls, 0, sizeof(t->tls));
		memcpy(t->tls, tls_init, tls_fsize);
	}
	sp = (void **) (stacks + (size_t) (nthr + 1) * STACK);
	*--sp = NULL; /* alignment and end of the stack */
	*--sp = (void *) entry;
	for (int i = 0; i < 6; i++)
		*--sp = NULL;
	t->sp = sp;
	return nthr++;
}

int sched_spawn(void (*fn)(void *), void *arg)
{
	return new_thread(fn, NULL, arg);
}

static bool enabled(int i)
{
	struct thr *t = &th[i];
	return !t->done && (!t->cond || t->cond(t->carg));
}

int sched_run(void)
{
	char save[sizeof(th[0].tls)];
	int last = -1, left = 0;

	for (;;) {
		int en[SCHED_MAXT], n = 0, k;

		if (last >= 0 && enabled(last))
			en[n++] = last;
		for (int i = 0; i < nthr; i++)
			if (i != last && enabled(i))
				en[n++] = i;
		if (!n)
			break;
		if (sched_first)
			k = 0;
		else if (en[0] == last)
			k = n > 1 ? mc_choose_dev(n) : 0;
		else
			k = n > 1 ? mc_choose(n) : 0;
		if (mc_replaying && en[k] != last)
			mc_note("thread %d at %s", en[k], th[en[k]].at);
		last = cur = en[k];
		th[cur].cond = NULL;
		load_tls(save, tls_base);
		load_tls(tls_base, th[cur].tls);
		errno = th[cur].err;
		sched_switch(&main_sp, th[cur].sp);
		th[cur].err = errno;
		load_tls(th[cur].tls, tls_base);
		load_tls(tls_base, save);
		if (th[cur].done) {
			th[cur].vc.c[cur]++;
			join_vc(&end_vc, &th[cur].vc);
		}
		cur = -1;
		if (++steps > 100000)
			mc_fail("livelock", "no end after 100000 steps");
		if (steps % 16 == 0)
			mc_tick();
	}
	for (int i = 0; i < nthr; i++) {
		left += !th[i].done;
		if (!th[i].done && mc_replaying)
			mc_note("thread %d blocked at %s", i, th[i].at);
	}
	join_vc(&out_vc, &end_vc);
	return left;
}

void sched_point(const char *what)
{
	if (cur < 0)
		return;
	th[cur].at = what;
	to_main();
}

void sched_wait(const char *what, bool (*cond)(void *), void *arg)
{
	if (cur < 0) {
		if (!cond(arg))
			mc_fail("block", "%s blocks for ever", what);
		return;
	}
	th[cur].at = what;
	th[cur].cond = cond;
	th[cur].carg = arg;
	to_main();
}

/* ---- pthread objects --------------------------------------------------------- */
enum { K_MUTEX, K_COND, K_MATTR, K_CATTR, K_TATTR };
struct obj {
	const void *p;
	int kind, type, owner, depth, waiters;
	bool live;
	bool heap_static;
};
#define NOBJ 512
static struct obj objs[NOBJ];
static int nobj;

static struct obj *find(const void *p, int kind)
{
	for (int i = nobj - 1; i >= 0; i--)
		if (objs[i].p == p && objs[i].kind == kind)
			return &objs[i];
	return NULL;
}

static struct obj *make(const void *p, int kind)
{
	struct obj *o = find(p, kind);

	if (o && o->live && (kind == K_MUTEX || kind == K_COND))
		mc_fail("init", "%s initialised twice", kind == K_MUTEX ? "mutex" : "condition");
	if (!o) {
		if (nobj == NOBJ)
			mc_fail("harness", "too many objects");
		o = &objs[nobj++];
	}
	*o = (struct obj){.p = p, .kind = kind, .owner = -1, .live = true};
	return o;
}

static int count(int kind)
{
	int n = 0;
	for (int i = 0; i < nobj; i++)
		n += objs[i].kind == kind && objs[i].live && !objs[i].heap_static;
	return n;
}
int sched_live_mutexes(void)
{
	return count(K_MUTEX);
}
int sched_live_conds(void)
{
	return count(K_COND);
}
int sched_live_attrs(void)
{
	return count(K_MATTR) + count(K_TATTR) + count(K_CATTR);
}
int sched_unjoined(void)
{
	int n = 0;
	for (int i = 0; i < nthr; i++)
		n += th[i].created_by_lib && !th[i].joined && !th[i].detached;
	return n;
}

static int fails(void)
{
	if (++sched_calls != sched_fail_at)
		return 0;
	sched_failed = true;
	return sched_fail_errno;
}

static struct obj *use(const void *p, int kind, const char *what)
{
	struct obj *o = find(p, kind);

	if (o && o->live)
		return o;
	if (!o && (kind == K_MUTEX || kind == K_COND)) { /* static initialiser */
		const char *b = p;
		size_t n = kind == K_MUTEX ? sizeof(pthread_mutex_t) : sizeof(pthread_cond_t);
		for (size_t i = 0; i < n; i++)
			if (b[i])
				mc_fail("uninit", "%s of an uninitialised object", what);
		o = make(p, kind);
		o->heap_static = true;
		return o;
	}
	mc_fail("uninit", "%s of an object that is %s", what, o ? "destroyed" : "not initialised");
	return o;
}

#define ATTR(name, type, K, cnt)                                               \
	int mc_pthread_##name##_init(type *a)                                  \
	{                                                                      \
		int e = fails();                                               \
		if (e)                                                         \
			return e;                                              \
		make(a, K);                                                    \
		return 0;                                                      \
	}                                                                      \
	int mc_pthread_##name##_destroy(type *a)                               \
	{                                                                      \
		use(a, K, #name "_destroy")->live = false;                     \
		return 0;                                                      \
	}
ATTR(mutexattr, pthread_mutexattr_t, K_MATTR, 1)
ATTR(condattr, pthread_condattr_t, K_CATTR, 1)
ATTR(attr, pthread_attr_t, K_TATTR, 1)

int mc_pthread_mutexattr_settype(pthread_mutexattr_t *a, int type)
{
	use(a, K_MATTR, "mutexattr_settype")->type = type;
	return 0;
}
int mc_pthread_attr_setdetachstate(pthread_attr_t *a, int s)
{
	use(a, K_TATTR, "attr_setdetachstate")->type = s;
	return 0;
}
int mc_pthread_attr_setstacksize(pthread_attr_t *a, size_t n)
{
	(void) n;
	use(a, K_TATTR, "attr_setstacksize");
	return 0;
}
int mc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	int e = fails(), type = a ? use(a, K_MATTR, "mutex_init")->type : 0;
	if (e)
		return e;
	sched_write(m, sizeof(*m));
	make(m, K_MUTEX)->type = type;
	return 0;
}
int mc_pthread_mutex_destroy(pthread_mutex_t *m)
{
	struct obj *o = use(m, K_MUTEX, "mutex_destroy");
	int e = fails();
	if (e)
		return e;
	if (o->owner != -1)
		mc_fail("destroy", "mutex destroyed while locked");
	sched_write(m, sizeof(*m));
	o->live = false;
	return 0;
}

static bool mutex_free(void *a)
{
	struct obj *o = find(a, K_MUTEX);
	return !o || !o->live || o->owner == -1;
}
static void take(pthread_mutex_t *m)
{
	struct obj *o = use(m, K_MUTEX, "mutex_lock");
	o->owner = me();
	o->depth = 1;
	sched_acquire(m);
}
static void drop(pthread_mutex_t *m)
{
	sched_release(m);
	find(m, K_MUTEX)->owner = -1;
}
int mc_pthread_mutex_lock(pthread_mutex_t *m)
{
	struct obj *o = use(m, K_MUTEX, "mutex_lock");

	if (o->owner == me()) {
		if (o->type == PTHREAD_MUTEX_RECURSIVE) {
			o->depth++;
			return 0;
		}
		if (o->type == PTHREAD_MUTEX_ERRORCHECK)
			return EDEADLK;
	}
	sched_wait("mutex_lock", mutex_free, m);
	take(m);
	return 0;
}
int mc_pthread_mutex_trylock(pthread_mutex_t *m)
{
	struct obj *o = use(m, K_MUTEX, "mutex_trylock");

	sched_point("mutex_trylock");
	if (o->owner == me() && o->type == PTHREAD_MUTEX_RECURSIVE) {
		o->depth++;
		return 0;
	}
	if (o->owner != -1)
		return EBUSY;
	take(m);
	return 0;
}
int mc_pthread_mutex_unlock(pthread_mutex_t *m)
{
	struct obj *o = use(m, K_MUTEX, "mutex_unlock");

	if (o->owner != me())
		mc_fail("unlock", "mutex unlocked by a thread that does not own it");
	if (--o->depth)
		return 0;
	drop(m);
	sched_point("after mutex_unlock");
	return 0;
}

/* condition variables: every waiting thread has a flag */
static const void *wait_on[NVC];
static bool woken[NVC];

int mc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	int e = fails();
	(void) a;
	if (e)
		return e;
	sched_write(c, sizeof(*c));
	make(c, K_COND);
	return 0;
}
int mc_pthread_cond_destroy(pthread_cond_t *c)
{
	struct obj *o = use(c, K_COND, "cond_destroy");
	int e = fails();
	if (e)
		return e;
	for (int i = 0; i < NVC; i++)
		if (wait_on[i] == c && !woken[i])
			mc_fail("destroy", "condition destroyed while a thread waits");
	sched_write(c, sizeof(*c));
	o->live = false;
	return 0;
}
struct cw {
	int t;
	pthread_mutex_t *m;
};
static struct cw cws[NVC];
static bool may_wake(void *a)
{
	struct cw *w = a;
	return woken[w->t] && mutex_free(w->m);
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
	struct obj *o = use(m, K_MUTEX, "cond_wait");
	int t = me(), rc = 0;

	use(c, K_COND, "cond_wait");
	if (o->owner != t)
		mc_fail("cond", "condition wait without owning the mutex");
	if (o->depth != 1)
		mc_fail("cond", "condition wait with a recursively locked mutex");
	wait_on[t] = c;
	woken[t] = false;
	cws[t] = (struct cw){t, m};
	if (timed && mc_choose_dev(2)) {
		woken[t] = true;
		rc = ETIMEDOUT;
	}
	if (!rc && sched_spurious && mc_choose_dev(2))
		woken[t] = true;
	drop(m);
	sched_wait("cond_wait", may_wake, &cws[t]);
	wait_on[t] = NULL;
	take(m);
	return rc;
}
int mc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return cond_wait(c, m, false);
}
int mc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	(void) ts;
	return cond_wait(c, m, true);
}
int mc_pthread_cond_signal(pthread_cond_t *c)
{
	int w[NVC], n = 0;

	use(c, K_COND, "cond_signal");
	sched_point("cond_signal");
	for (int i = 0; i < NVC; i++)
		if (wait_on[i] == c && !woken[i])
			w[n++] = i;
	if (n)
		woken[w[n > 1 ? mc_choose(n) : 0]] = true;
	return 0;
}
int mc_pthread_cond_broadcast(pthread_cond_t *c)
{
	use(c, K_COND, "cond_broadcast");
	sched_point("cond_broadcast");
	for (int i = 0; i < NVC; i++)
		if (wait_on[i] == c)
			woken[i] = true;
	return 0;
}

/* threads: ids are numbers that no real thread has */
#define ID(t) ((pthread_t) (0x7700000000 + (uintptr_t) (t) * 16))
static int of_id(pthread_t id)
{
	uintptr_t v = (uintptr_t) id - 0x7700000000;
	if (v % 16 || v / 16 >= (uintptr_t) nthr)
		return -1;
	return (int) (v / 16);
}
int mc_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	int e, t;

	if (a)
		use(a, K_TATTR, "create");
	e = fails();
	if (e) {
		*id = (pthread_t) 0x1badbadbad; /* undefined contents */
		return e;
	}
	t = new_thread(NULL, fn, arg);
	th[t].created_by_lib = true;
	th[t].detached = a && find(a, K_TATTR)->type == PTHREAD_CREATE_DETACHED;
	*id = ID(t);
	sched_point("after create");
	return 0;
}
static bool is_done(void *a)
{
	return ((struct thr *) a)->done;
}
int mc_pthread_join(pthread_t id, void **ret)
{
	int t = of_id(id), e;

	if (t < 0)
		mc_fail("join", "join of an invalid thread id");
	if (th[t].joined || th[t].detached || !th[t].created_by_lib)
		mc_fail("join", "thread %d joined twice", t);
	if (t == cur)
		return EDEADLK;
	e = fails();
	if (e)
		return e;
	sched_wait("join", is_done, &th[t]);
	th[t].joined = true;
	join_vc(myvc(), &th[t].vc);
	if (ret)
		*ret = th[t].ret;
	return 0;
}
int mc_pthread_detach(pthread_t id)
{
	int t = of_id(id);
	if (t < 0 || th[t].joined)
		mc_fail("detach", "detach of an invalid thread id");
	th[t].detached = true;
	return 0;
}
pthread_t mc_pthread_self(void)
{
	return ID(me());
}
static struct obj *once;
int mc_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	(void) once;
	sched_point("once");
	if (*o == 0) {
		*o = 2;
		fn();
		sched_release(o);
	} else {
		sched_acquire(o);
	}
	return 0;
}

/* ---- compiler hooks ------------------------------------------------------------ */
#define RW(n)                                                                  \
	void __tsan_read##n(void *p)                                           \
	{                                                                      \
		mem_access(p, n, false);                                           \
	}                                                                      \
	void __tsan_write##n(void *p)                                          \
	{                                                                      \
		mem_access(p, n, true);                                            \
	}                                                                      \
	void __tsan_unaligned_read##n(void *p)                                 \
	{                                                                      \
		mem_access(p, n, false);                                           \
	}                                                                      \
	void __tsan_unaligned_write##n(void *p)                                \
	{                                                                      \
		mem_access(p, n, true);                                            \
	}                                                                      \
	void __tsan_volatile_read##n(void *p)                                  \
	{                                                                      \
		sched_point("volatile read");                                  \
	}                                                                      \
	void __tsan_volatile_write##n(void *p)                                 \
	{                                                                      \
		sched_point("volatile write");                                 \
	}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_init(void)
{
}
void __tsan_func_entry(void *p)
{
	(void) p;
}
void __tsan_func_exit(void)
{
}
void __tsan_read_range(void *p, size_t n)
{
	mem_access(p, n, false);
}
void __tsan_write_range(void *p, size_t n)
{
	mem_access(p, n, true);
}

static void atomic_point(void)
{
	sched_point("atomic");
}
/* memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst */
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
static void sync_rmw(const volatile void *p, int mo)
{
	if (ACQ(mo))
		sched_acquire((const void *) p);
	if (REL(mo))
		sched_release((const void *) p);
}
#define AT(n, T)                                                               \
	T __tsan_atomic##n##_load(const volatile T *p, int mo)                 \
	{                                                                      \
		atomic_point();                                                \
		if (ACQ(mo))                                                   \
			sched_acquire((const void *) p);                       \
		return *p;                                                     \
	}                                                                      \
	void __tsan_atomic##n##_store(volatile T *p, T v, int mo)              \
	{                                                                      \
		atomic_point();                                                \
		if (REL(mo))                                                   \
			sched_release((const void *) p);                       \
		*p = v;                                                        \
	}                                                                      \
	T __tsan_atomic##n##_exchange(volatile T *p, T v, int mo)              \
	{                                                                      \
		T o;                                                           \
		atomic_point();                                                \
		sync_rmw(p, mo);                                               \
		o = *p;                                                        \
		*p = v;                                                        \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int mo)             \
	{                                                                      \
		T o;                                                           \
		atomic_point();                                                \
		sync_rmw(p, mo);                                               \
		o = *p;                                                        \
		*p = (T) (o + v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int mo)             \
	{                                                                      \
		T o;                                                           \
		atomic_point();                                                \
		sync_rmw(p, mo);                                               \
		o = *p;                                                        \
		*p = (T) (o - v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int mo)              \
	{                                                                      \
		T o;                                                           \
		atomic_point();                                                \
		sync_rmw(p, mo);                                               \
		o = *p;                                                        \
		*p = (T) (o | v);                                              \
		return o;                                                      \
	}                                                                      \
	T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int mo)             \
	{                                                                      \
		T o;                                                           \
		atomic_point();                                                \
		sync_rmw(p, mo);                                               \
		o = *p;                                                        \
		*p = (T) (o & v);                                              \
		return o;                                                      \
	}                                                                      \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e,    \
						       T v, int mo, int fmo)   \
	{                                                                      \
		atomic_point();                                                \
		sync_rmw(p, *p == *e ? mo : fmo);                              \
		if (*p == *e) {                                                \
			*p = v;                                                \
			return 1;                                              \
		}                                                              \
		*e = *p;                                                       \
		return 0;                                                      \
	}                                                                      \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, \
						     int mo, int fmo)          \
	{                                                                      \
		return __tsan_atomic##n##_compare_exchange_strong(p, e, v, mo, \
								  fmo);        \
	}
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
	(void) mo;
	atomic_point();
}
void __tsan_atomic_signal_fence(int mo)
{
	(void) mo;
}

/* C library functions that touch memory of their caller */
void *mc_memcpy(void *d, const void *s, size_t n)
{
	mem_access(s, n, false);
	mem_access(d, n, true);
	return memcpy(d, s, n);
}
void *mc_memmove(void *d, const void *s, size_t n)
{
	mem_access(s, n, false);
	mem_access(d, n, true);
	return memmove(d, s, n);
}
void *mc_memset(void *d, int c, size_t n)
{
	mem_access(d, n, true);
	return memset(d, c, n);
}
size_t mc_strlen(const char *s)
{
	size_t n = strlen(s);
	mem_access(s, n + 1, false);
	return n;
}
char *mc_strncpy(char *d, const char *s, size_t n)
{
	mem_access(s, strnlen(s, n), false);
	mem_access(d, n, true);
	return strncpy(d, s, n);
}
char *mc_strcpy(char *d, const char *s)
{
	size_t n = strlen(s) + 1;
	mem_access(s, n, false);
	mem_access(d, n, true);
	return memcpy(d, s, n);
}

/* ---- execution ------------------------------------------------------------------- */
extern char __start_sc_bss[] __attribute__((weak)), __stop_sc_bss[] __attribute__((weak));
extern char __start_sc_data[] __attribute__((weak)), __stop_sc_data[] __attribute__((weak));
static char *gsave[2];

void sched_globals(int save)
{
	size_t n = (size_t) (__stop_sc_bss - __start_sc_bss);
	size_t m = (size_t) (__stop_sc_data - __start_sc_data);

	if (save && !gsave[0]) {
		gsave[0] = malloc(n + 1);
		gsave[1] = malloc(m + 1);
	}
	if (n)
		memcpy(save ? gsave[0] : __start_sc_bss, save ? __start_sc_bss : gsave[0], n);
	if (m)
		memcpy(save ? gsave[1] : __start_sc_data, save ? __start_sc_data : gsave[1], m);
}

void sched_reset(void)
{
	if (!cells) {
		cells = calloc(NCELL, sizeof(*cells));
		stacks = mmap(NULL, (size_t) STACK * SCHED_MAXT, PROT_READ | PROT_WRITE,
			      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		dl_iterate_phdr(find_tls, NULL);
		if (!cells || stacks == MAP_FAILED || tls_size > sizeof(th[0].tls)) {
			fprintf(stderr, "harness: cannot set up the scheduler\n");
			_exit(3);
		}
	}
	gen++;
	nthr = 0;
	cur = -1;
	nobj = nsync = 0;
	steps = 0;
	memset(&out_vc, 0, sizeof(out_vc));
	memset(&end_vc, 0, sizeof(end_vc));
	out_vc.c[OUT] = 1;
	memset(wait_on, 0, sizeof(wait_on));
	memset(woken, 0, sizeof(woken));
	sched_fail_at = sched_calls = 0;
	sched_failed = false;
}
