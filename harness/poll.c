/* Poller: interest of every descriptor over a model of the kernel's poller.
 * default: all histories (engine A) and the lifecycle (engine B);
 * -DREAL: the model against the kernel; -DCONC: all schedules (engine C);
 * -DMANY: many descriptors ready at once (engine B). */
#define _GNU_SOURCE
#ifdef CONC
#include "csched.h"
#else
#include "mc.h"
#define sched_point(x) ((void) 0)
#define sched_release(x) ((void) 0)
#define sched_acquire(x) ((void) 0)
#endif
#include "sc_sock.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <unistd.h>

#ifdef CONC
#define NFD 4
#elif defined(MANY)
#define NFD 2100
#else
#define NFD 2
#endif
#define FD0 20
#define EPFD 15
#define ALWAYS (EPOLLERR | EPOLLHUP)

/* ---- the kernel ------------------------------------------------------------- */
static struct kernel {
	struct kfd {
		uint8_t open, reg, armed;
		uint32_t ready, events;
		uint64_t data;
	} fd[NFD];
	uint8_t ep_open;
#ifdef MANY
	uint16_t next;
#else
	uint8_t next;
#endif
} K;

static int inject; /* errno of the next failing call */
static int inject_what;
enum { F_CTL = 1, F_WAIT, F_CREATE, F_CLOSE };
static int ctl_calls, wait_calls, eintr_left;
static int last_timeout;
static bool in_wait;

static bool injected(int what)
{
	if (!inject || inject_what != what)
		return false;
	errno = inject;
	inject = 0;
	return true;
}
static uint32_t pending(struct kfd *f)
{
	uint32_t r;

	if (!f->open || !f->reg)
		return 0;
	r = f->ready & (f->events | ALWAYS);
	if ((f->events & EPOLLET) && !f->armed)
		return 0;
	return r;
}
static void wake(struct kfd *f, uint32_t key)
{
	if (f->reg && (!key || (key & (f->events | ALWAYS))))
		f->armed = 1;
}
#ifdef REAL
static int real_ep, real_fd[NFD], real_peer[NFD];
static uint64_t agree, differ;
static void compare(const char *what, int model, int real)
{
	if (model == real)
		agree++;
	else {
		differ++;
		if (differ == 1)
			mc_sample("model and kernel differ: %s: %d, kernel %d", what, model, real);
	}
}
#endif

int mc_epoll_create1(int flags)
{
	if (injected(F_CREATE))
		return -1;
	MC_CHECK(!K.ep_open, "twice", "a second poller is created");
	K.ep_open = 1;
	return EPFD;
}
int mc_epoll_create(int n)
{
	return mc_epoll_create1(0);
}
int mc_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	struct kfd *f = NULL;
	int e = 0;

	sched_point("epoll_ctl");
	sched_release(&K);
	ctl_calls++;
	if (injected(F_CTL))
		return -1;
	if (ep != EPFD || !K.ep_open)
		e = EBADF;
	else if (fd < FD0 || fd >= FD0 + NFD || !K.fd[fd - FD0].open)
		e = EBADF;
	else {
		f = &K.fd[fd - FD0];
		if (op == EPOLL_CTL_ADD)
			e = f->reg ? EEXIST : 0;
		else if (op == EPOLL_CTL_MOD || op == EPOLL_CTL_DEL)
			e = f->reg ? 0 : ENOENT;
		else
			e = EINVAL;
	}
#ifdef REAL
	if (f) {
		struct epoll_event c = *ev;
		c.data.u64 = (uint64_t) (f - K.fd);
		compare("epoll_ctl", e, epoll_ctl(real_ep, op, real_fd[f - K.fd], &c) ? errno : 0);
	}
#endif
	if (e) {
		errno = e;
		return -1;
	}
	if (op == EPOLL_CTL_DEL) {
		f->reg = f->armed = 0;
		f->events = 0;
		f->data = 0;
	} else {
		f->reg = 1;
		f->events = ev->events;
		f->data = ev->data.u64;
		f->armed = 1;
	}
	return 0;
}
static bool some_ready(void *arg)
{
	for (int i = 0; i < NFD; i++)
		if (pending(&K.fd[i]))
			return true;
	return false;
}
int mc_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout)
{
	int n = 0;

	sched_point("epoll_wait");
	wait_calls++;
	last_timeout = timeout;
	if (ep != EPFD || !K.ep_open) {
		errno = EBADF;
		return -1;
	}
	MC_CHECK(max > 0, "max", "epoll_wait() for %d events", max);
	if (eintr_left) {
		eintr_left--;
		errno = EINTR;
		return -1;
	}
	if (injected(F_WAIT))
		return -1;
#ifdef CONC
	if (timeout < 0)
		sched_wait("epoll_wait", some_ready, NULL);
#endif
	for (int k = 0; k < NFD && n < max; k++) {
		struct kfd *f = &K.fd[(k + K.next) % NFD];
		if (!pending(f))
			continue;
		evs[n].events = pending(f);
		evs[n].data.u64 = f->data;
		f->armed = 0;
		n++;
	}
	if (n)
		sched_acquire(&K);
	return n;
}
int mc_epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *m)
{
	return mc_epoll_wait(ep, evs, max, timeout);
}
int mc_close(int fd)
{
	if (fd == EPFD && K.ep_open) {
		K.ep_open = 0;
		return injected(F_CLOSE) ? -1 : 0;
	}
	if (fd < FD0 || fd >= FD0 + NFD || !K.fd[fd - FD0].open) {
		mc_fail("close", "close(%d), which is not open", fd);
		return -1;
	}
	memset(&K.fd[fd - FD0], 0, sizeof(K.fd[0]));
#ifdef REAL
	close(real_fd[fd - FD0]);
	real_fd[fd - FD0] = -1;
#endif
	return 0;
}

/* ---- reference ---------------------------------------------------------------- */
static struct sc_sock_poll p;
static struct ref {
	uint8_t mask;
	uint8_t data;
} R[NFD];

static uint32_t kevents(int mask)
{
	return (mask & SC_SOCK_READ ? EPOLLIN : 0) | (mask & SC_SOCK_WRITE ? EPOLLOUT : 0) | (mask & SC_SOCK_EDGE ? EPOLLET : 0);
}
static int norm(int mask)
{
	return mask == SC_SOCK_EDGE ? 0 : mask;
}
static void *dataptr(int i, int d)
{
	return (void *) (uintptr_t) (0x1000 + i * 16 + d);
}
static const char *evname(int e)
{
	static char b[8];
	snprintf(b, sizeof(b), "%s%s%s", e & 1 ? "R" : "", e & 2 ? "W" : "", e & 4 ? "E" : "");
	return b;
}

static void reg_check(int i, int op)
{
	struct kfd *f = &K.fd[i];

	MC_CHECK(op == R[i].mask, "op", "descriptor %d: recorded interest %d, not %d", i, op, R[i].mask);
	MC_CHECK(f->reg == (R[i].mask != 0), "registered", "descriptor %d with interest '%s' is %sregistered", i, evname(R[i].mask),
		 f->reg ? "" : "not ");
	if (!f->reg)
		return;
	MC_CHECK((f->events & (EPOLLIN | EPOLLOUT | EPOLLET)) == kevents(R[i].mask), "interest",
		 "descriptor %d with interest '%s' is registered for %x", i, evname(R[i].mask), f->events);
	MC_CHECK((f->events & EPOLLRDHUP), "rdhup", "descriptor %d is not watched for the peer's shutdown", i);
	MC_CHECK(!(f->events & (EPOLLONESHOT | EPOLLPRI | EPOLLEXCLUSIVE)), "flags", "descriptor %d registered with %x", i, f->events);
	MC_CHECK(f->data == (uint64_t) (uintptr_t) dataptr(i, R[i].data), "data", "descriptor %d has the wrong user data", i);
}
#ifndef MANY
/* results of a wait against the kernel's state before it */
static void wait_check(int n, const struct kernel *before)
{
	int exp = 0, max = SC_SOCK_POLL_MAX_EVENTS;
	unsigned seen = 0;

	for (int i = 0; i < NFD; i++)
		exp += pending((struct kfd *) &before->fd[i]) != 0;
	MC_CHECK(n == (exp < max ? exp : max), "count", "wait returns %d, %d descriptors are ready", n, exp);
	for (int k = 0; k < n; k++) {
		void *d = sc_sock_poll_data(&p, k);
		uint32_t ev = sc_sock_poll_event(&p, k), r, want = 0;
		int i;

		for (i = 0; i < NFD; i++)
			if (d == dataptr(i, R[i].data) && R[i].mask)
				break;
		if (i == NFD || (seen >> i & 1)) {
			mc_fail("event-data", "event with unknown or repeated data %p", d);
			continue;
		}
		seen |= 1u << i;
		r = pending((struct kfd *) &before->fd[i]);
		want = (r & EPOLLIN ? SC_SOCK_READ : 0) | (r & EPOLLOUT ? SC_SOCK_WRITE : 0);
		if (r & (EPOLLERR | EPOLLHUP | EPOLLRDHUP))
			want = SC_SOCK_READ | SC_SOCK_WRITE;
		MC_CHECK(ev == want, "event", "descriptor %d ready for %x with interest '%s' reports %x", i, r, evname(R[i].mask), ev);
	}
}

#endif
static struct sc_sock sock;
static struct sc_sock_pipe pip;
static struct sc_sock_fd *fdt(int i)
{
	return i ? &pip.fdt : &sock.fdt;
}
static void open_fd(int i)
{
	K.fd[i].open = 1;
	K.fd[i].ready = EPOLLOUT;
	R[i].mask = R[i].data = 0;
	if (i == 0) {
		sc_sock_init(&sock, 1, true, SC_SOCK_INET);
		sock.fdt.fd = FD0;
	} else {
		memset(&pip, 0, sizeof(pip));
		pip.fdt.fd = FD0 + 1;
	}
}

static const uint32_t readies[] = {0, EPOLLOUT, EPOLLIN, EPOLLIN | EPOLLOUT, EPOLLIN | EPOLLOUT | EPOLLRDHUP,
				   EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP, EPOLLERR | EPOLLOUT};
#define NREADY 7
static void set_ready(int i, uint32_t r)
{
	struct kfd *f = &K.fd[i];
	uint32_t added = r & ~f->ready;

	f->ready = r;
	if (added & (EPOLLRDHUP | EPOLLHUP | EPOLLERR))
		wake(f, 0);
	else if (added)
		wake(f, added);
}

/* one call; fail: errno of a failing system call or 0 */
static void ctl(int i, bool add, int ev, int d, int fail)
{
	int old = R[i].mask, want = norm(add ? old | ev : old & ~ev), rc, calls;
	struct kernel before = K;

	inject = fail;
	inject_what = F_CTL;
	ctl_calls = 0;
	errno = 0;
	rc = add ? sc_sock_poll_add(&p, fdt(i), (enum sc_sock_ev) ev, dataptr(i, d)) :
		   sc_sock_poll_del(&p, fdt(i), (enum sc_sock_ev) ev, dataptr(i, d));
	calls = ctl_calls;
	if (fail && !inject) { /* it was delivered */
		MC_CHECK(rc == -1, "fail-rc", "%s returns %d although the system call failed", add ? "add" : "del", rc);
		MC_CHECK(strstr(sc_sock_poll_err(&p), strerror(fail)), "fail-text", "error text '%s'", sc_sock_poll_err(&p));
		MC_CHECK((int) fdt(i)->op == old, "rollback", "interest %d after a failed call, it was %d", fdt(i)->op, old);
		MC_CHECK(!memcmp(&before, &K, sizeof(K)), "fail-effect", "a failed call changes the poller");
		inject = 0;
		return;
	}
	inject = 0;
	if (rc != 0) {
		mc_fail("rc", "%s '%s' with interest %d returns %d: %s", add ? "add" : "del", evname(ev), old, rc, sc_sock_poll_err(&p));
		return;
	}
	R[i].mask = (uint8_t) want;
	if (K.fd[i].reg && want != old)
		R[i].data = (uint8_t) d;
	else if (K.fd[i].reg && calls) /* unchanged interest: the new data may be taken */
		R[i].data = K.fd[i].data == (uint64_t) (uintptr_t) dataptr(i, d) ? (uint8_t) d : R[i].data;
	if (!want)
		R[i].data = 0;
	reg_check(i, (int) fdt(i)->op);
}
#ifndef MANY
static void do_wait(int eintr, int timeout)
{
	struct kernel before = K;
	int n;

	eintr_left = eintr;
	wait_calls = 0;
	n = sc_sock_poll_wait(&p, timeout);
	MC_CHECK(wait_calls == eintr + 1, "retry", "%d waits for %d interruptions", wait_calls, eintr);
	MC_CHECK(last_timeout == timeout, "timeout", "waits %d ms instead of %d", last_timeout, timeout);
	wait_check(n, &before);
	if (n > 0)
		memset(p.events, 0, (size_t) n * sizeof(*p.events));
	K.next = (uint8_t) ((K.next + 1) % NFD);
}

#endif
#ifdef CONC
/* ---- schedules ------------------------------------------------------------------ */
static int prog, nthr, handled, expected;
static struct sc_sock_fd *objs[NFD];
static struct sc_sock_fd slots[NFD];
int mc_vsnprintf(char *buf, size_t n, const char *fmt, va_list va)
{
	int r = vsnprintf(buf, n, fmt, va);

	if (n)
		sched_write(buf, (size_t) r < n ? (size_t) r + 1 : n);
	return r;
}

static struct sc_sock_fd *new_fd(int i)
{
	struct sc_sock_fd *f = &slots[i];

	sched_write(f, sizeof(*f));
	f->fd = FD0 + i;
	f->op = SC_SOCK_NONE;
	f->type = 40 + i;
	K.fd[i].open = 1;
	K.fd[i].ready = i % 2 ? EPOLLIN | EPOLLOUT : EPOLLOUT;
	return f;
}
static void release_fd(struct sc_sock_fd *f)
{
	sched_write(f, sizeof(*f)); /* reused by its owner */
	memset(f, 0xdd, sizeof(*f));
}
/* adds descriptors and never looks at them again */
static void adder(void *arg)
{
	int first = (int) (intptr_t) arg & 15, n = (int) (intptr_t) arg >> 4 & 15, ev = (int) (intptr_t) arg >> 8;

	for (int i = first; i < first + n; i++) {
		struct sc_sock_fd *f = new_fd(i);
		int rc = sc_sock_poll_add(&p, f, (enum sc_sock_ev) ev, f);
		MC_CHECK(rc == 0, "rc", "add returns %d", rc);
	}
}
/* handles events: the descriptor is theirs from then on */
static void waiter(void *arg)
{
	int n = (int) (intptr_t) arg;

	while (n > 0) {
		int k = sc_sock_poll_wait(&p, -1);

		MC_CHECK(k > 0, "wait", "wait returns %d", k);
		for (int j = 0; j < k; j++) {
			struct sc_sock_fd *f = sc_sock_poll_data(&p, j);
			uint32_t ev = sc_sock_poll_event(&p, j);
			int i, rc;

			if (f < slots || f >= slots + NFD) {
				mc_fail("event-data", "event with unknown data");
				return;
			}
			sched_read(f, sizeof(*f));
			i = f->type - 40;
			MC_CHECK(i >= 0 && i < NFD && f->fd == FD0 + i, "event-data", "event for a broken descriptor");
			MC_CHECK(ev && !(ev & ~(uint32_t) f->op), "event", "event %u for interest %u", ev, f->op);
			rc = sc_sock_poll_del(&p, f, SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE, f);
			MC_CHECK(rc == 0 && f->op == SC_SOCK_NONE, "rc", "del returns %d, interest %d", rc, f->op);
			MC_CHECK(!K.fd[i].reg, "registered", "still registered after del");
			release_fd(f);
			handled++;
			n--;
		}
	}
}
/* changes the interest several times and takes the descriptor back */
static void changer(void *arg)
{
	int i = (int) (intptr_t) arg & 15, how = (int) (intptr_t) arg >> 4;
	struct sc_sock_fd *f = new_fd(i);
	int rc = 0;

	K.fd[i].ready = 0;
	rc |= sc_sock_poll_add(&p, f, how & 1 ? SC_SOCK_READ : SC_SOCK_READ | SC_SOCK_EDGE, f);
	rc |= sc_sock_poll_add(&p, f, SC_SOCK_WRITE, f);
	rc |= sc_sock_poll_del(&p, f, SC_SOCK_READ, f);
	if (how & 2)
		rc |= sc_sock_poll_add(&p, f, SC_SOCK_READ, f);
	rc |= sc_sock_poll_del(&p, f, SC_SOCK_READ | SC_SOCK_WRITE, NULL);
	MC_CHECK(rc == 0 && f->op == SC_SOCK_NONE, "rc", "a change fails, interest %d", f->op);
	MC_CHECK(!K.fd[i].reg, "registered", "still registered after del");
	release_fd(f);
}
/* waits until it got the event of descriptor 3 */
static void watcher(void *arg)
{
	for (;;) {
		int k = sc_sock_poll_wait(&p, -1);
		MC_CHECK(k > 0, "wait", "wait returns %d", k);
		for (int j = 0; j < k; j++)
			if (sc_sock_poll_data(&p, j) == (void *) objs[3]) {
				handled++;
				return;
			}
	}
}
/* error texts belong to the thread */
static void failer(void *arg)
{
	int which = (int) (intptr_t) arg, rc;
	struct sc_sock_fd f = {.fd = which ? FD0 + 1 : -1, .op = which ? SC_SOCK_READ : SC_SOCK_NONE};

	rc = sc_sock_poll_add(&p, &f, which ? SC_SOCK_WRITE : SC_SOCK_READ, &f);
	MC_CHECK(rc == -1, "rc", "add returns %d", rc);
	MC_CHECK(f.op == (which ? SC_SOCK_READ : SC_SOCK_NONE), "rollback", "interest %d after failure", f.op);
	sched_point("look");
	MC_CHECK(strstr(sc_sock_poll_err(&p), strerror(which ? ENOENT : EBADF)), "text", "error text of another thread: '%s'",
		 sc_sock_poll_err(&p));
}

#define ADD(first, n, ev) (void *) (intptr_t) ((first) | (n) << 4 | (ev) << 8)
#define E SC_SOCK_EDGE
#define W SC_SOCK_WRITE
#define RD SC_SOCK_READ
static void run(void)
{
	int rc, left;

	mc_heap_reset();
	mc_alloc_reset(0);
	memset(&K, 0, sizeof(K));
	inject = eintr_left = 0;
	handled = 0;
	sched_reset();
	sched_globals(0);
	rc = sc_sock_poll_init(&p);
	MC_CHECK(rc == 0, "init", "init returns %d", rc);
	switch (prog) {
	case 0:
		sched_spawn(adder, ADD(0, 1, W));
		sched_spawn(waiter, (void *) 1);
		expected = 1;
		break;
	case 1:
		sched_spawn(adder, ADD(0, 2, W));
		sched_spawn(waiter, (void *) 2);
		expected = 2;
		break;
	case 2:
		sched_spawn(adder, ADD(0, 1, W | RD));
		sched_spawn(adder, ADD(1, 1, W | RD));
		sched_spawn(waiter, (void *) 2);
		expected = 2;
		break;
	case 3:
		sched_spawn(adder, ADD(0, 1, W | E));
		sched_spawn(adder, ADD(1, 2, RD | W | E));
		sched_spawn(waiter, (void *) 3);
		expected = 3;
		break;
	case 4:
	case 5:
	case 6:
	case 7:
		objs[3] = new_fd(3);
		sched_spawn(changer, (void *) (intptr_t) (0 | (prog - 4) << 4));
		sched_spawn(watcher, NULL);
		rc = sc_sock_poll_add(&p, objs[3], SC_SOCK_READ, objs[3]);
		MC_CHECK(rc == 0, "rc", "add returns %d", rc);
		expected = 1;
		break;
	case 8:
		K.fd[1].open = 1;
		sched_spawn(failer, (void *) 0);
		sched_spawn(failer, (void *) 1);
		expected = 0;
		break;
	case 9:
		K.fd[1].open = 1;
		sched_spawn(failer, (void *) 0);
		sched_spawn(failer, (void *) 1);
		sched_spawn(failer, (void *) 0);
		expected = 0;
		break;
	case 10:
		sched_spawn(changer, (void *) (intptr_t) (0 | 3 << 4));
		sched_spawn(changer, (void *) (intptr_t) (1 | 2 << 4));
		expected = 0;
		break;
	case 11:
		sched_spawn(adder, ADD(0, 2, W));
		sched_spawn(changer, (void *) (intptr_t) (2 | 3 << 4));
		sched_spawn(waiter, (void *) 2);
		expected = 2;
		break;
	}
	left = sched_run();
	MC_CHECK(left == 0, "stuck", "%d threads cannot go on, an event is lost", left);
	MC_CHECK(handled == expected, "handled", "%d events handled, %d expected", handled, expected);
	rc = sc_sock_poll_term(&p);
	MC_CHECK(rc == 0 && !K.ep_open, "term", "term returns %d", rc);
	MC_CHECK(mc_live_blocks() == 0, "leak", "memory leaked");
	mc_distinct_add(&(struct { int p; uint64_t c; }){prog, sched_clock()}, 16);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	sched_reset();
	sched_globals(1);
	for (prog = 0; prog < 12; prog++) {
		int dev = prog == 2 || prog == 3 || prog == 9 || prog == 11 ? 6 : 12;

		if (mc_mine("program %d", prog))
			mc_dfs(run, dev + 2 * mc_thorough, mc_thorough ? 8000000 : 400000);
	}
	return mc_done();
}

#elif defined(MANY)
/* ---- many descriptors ready at once -------------------------------------------------- */
static struct sc_sock_fd objs[NFD];
static uint8_t seen[NFD], now[NFD];

static void many_wait(int count, int *got)
{
	static struct kernel copy;
	const struct kernel *before = &copy;
	int n, next = K.next;

	copy = K;
	n = sc_sock_poll_wait(&p, 0);
	MC_CHECK(n >= 0 && n <= count, "count", "wait returns %d of %d descriptors", n, count);
	memset(now, 0, sizeof(now));
	for (int k = 0; k < n; k++) {
		uint64_t d = (uint64_t) (uintptr_t) sc_sock_poll_data(&p, k) - 0x1000;
		uint32_t ev = sc_sock_poll_event(&p, k), r, want;
		uint64_t i = d / 16;

		if (d % 16 || i >= NFD || !R[i].mask || now[i]) {
			mc_fail("event-data", "event %d of %d with unknown or repeated data", k, n);
			break;
		}
		now[i] = 1;
		seen[i] = 1;
		r = pending((struct kfd *) &before->fd[i]);
		want = (r & EPOLLIN ? SC_SOCK_READ : 0) | (r & EPOLLOUT ? SC_SOCK_WRITE : 0);
		if (r & (EPOLLERR | EPOLLHUP | EPOLLRDHUP))
			want = SC_SOCK_READ | SC_SOCK_WRITE;
		MC_CHECK(ev == want, "event", "event %d of %d: descriptor %d ready for %x with interest '%s' reports %x", k, n, (int) i, r,
			 evname(R[i].mask), ev);
	}
	*got = n;
	K.next = (uint16_t) ((next + n) % NFD);
}
static void run(void)
{
	static const int counts[] = {1,	  2,   16,  31,	 32,   33,   63,   64,	 65,   127,  128,  129,	 255,  256,
				     257, 300, 511, 512, 513,  600,  999,  1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2100};
	int count, kind, n, total = 0, step;

	mc_heap_reset();
	mc_alloc_reset(0);
	mc_big_limit = 1 << 24;
	memset(&K, 0, sizeof(K));
	memset(R, 0, sizeof(R));
	memset(seen, 0, sizeof(seen));
	inject = eintr_left = 0;
	count = counts[mc_choose(sizeof(counts) / sizeof(*counts))];
	kind = mc_choose(4); /* level, edge, both, both with some that are not ready */
	step = mc_choose(2) ? 1 : 11;
	mc_note("%d descriptors, kind %d\n", count, kind);
	if (sc_sock_poll_init(&p)) {
		mc_fail("init", "init fails");
		return;
	}
	for (int i = 0; i < count; i++) {
		int k = i * step % count, ev, rc; /* in another order too */
		if (step > 1 && count % step == 0)
			k = count - 1 - i;
		ev = k % 3 == 0 ? SC_SOCK_READ : k % 3 == 1 ? SC_SOCK_WRITE : SC_SOCK_READ | SC_SOCK_WRITE;
		if (kind == 1 || (kind > 1 && k & 1))
			ev |= SC_SOCK_EDGE;
		K.fd[k].open = 1;
		K.fd[k].ready = kind == 3 && k % 5 == 4 ? 0 :
				k % 7 == 3		? EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP :
							  EPOLLIN | EPOLLOUT;
		memset(&objs[k], 0, sizeof(objs[k]));
		objs[k].fd = FD0 + k;
		rc = sc_sock_poll_add(&p, &objs[k], (enum sc_sock_ev) ev, dataptr(k, 0));
		MC_CHECK(rc == 0, "rc", "adding descriptor %d of %d fails", k, count);
		R[k].mask = (uint8_t) ev;
	}
	for (int i = 0; i < count; i++)
		reg_check(i, (int) objs[i].op);
	for (int i = 0; i < count; i++)
		total += pending(&K.fd[i]) != 0;
	/* every one is reported, however many fit into one answer */
	for (int w = 0; w < total; w++) {
		bool all = true;
		many_wait(count, &n);
		MC_CHECK(n > 0 || kind, "count", "wait returns %d of %d descriptors", n, total);
		for (int i = 0; i < count; i++)
			all &= seen[i] || (!pending(&K.fd[i]) && !(R[i].mask & SC_SOCK_EDGE));
		if (all || !n)
			break;
	}
	n = 0;
	for (int i = 0; i < count; i++)
		n += seen[i];
	MC_CHECK(n == total, "lost", "%d of %d ready descriptors are reported", n, total);
	for (int i = 0; i < count; i++)
		MC_CHECK(seen[i] == (K.fd[i].ready != 0), "lost", "descriptor %d of %d: ready for %x, %sreported", i, count, K.fd[i].ready,
			 seen[i] ? "" : "not ");
	/* half of them leave */
	for (int i = 0; i < count; i += 2) {
		int rc = sc_sock_poll_del(&p, &objs[i], SC_SOCK_READ | SC_SOCK_WRITE | SC_SOCK_EDGE, dataptr(i, 0));
		MC_CHECK(rc == 0, "rc", "removing descriptor %d of %d fails", i, count);
		R[i].mask = R[i].data = 0;
	}
	for (int i = 0; i < count; i++)
		reg_check(i, (int) objs[i].op);
	many_wait(count, &n);
	MC_CHECK(sc_sock_poll_term(&p) == 0 && !K.ep_open, "term", "term fails or leaves the poller open");
	MC_CHECK(mc_live_blocks() == 0, "leak", "%d blocks left", mc_live_blocks());
	{
		uint64_t h = (uint64_t) (count * 8 + kind * 2 + (step > 1));
		mc_distinct_add(&h, 8);
	}
	mc_tick();
}
int main(int argc, char **argv)
{
	mc_init(argc, argv);
	if (mc_mine("many descriptors"))
		mc_dfs(run, 0, UINT64_MAX);
	return mc_done();
}

#elif defined(REAL)
/* ---- the model and the kernel side by side --------------------------------------- */
#include <sys/socket.h>
static int depth, nfds, pready[NFD];
static char junk[4096];

static void real_ready(int i, int r)
{
	/* 0 out, 1 in+out, 2 none, 3 in, 4 peer shut down, 5 peer closed */
	static const uint32_t ev[] = {EPOLLOUT, EPOLLIN | EPOLLOUT, 0, EPOLLIN, EPOLLIN | EPOLLOUT | EPOLLRDHUP,
				      EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP};
	uint32_t had = K.fd[i].ready, want = ev[r];

	if (r < 4) {
		if ((want & EPOLLOUT) && !(had & EPOLLOUT))
			while (read(real_peer[i], junk, sizeof(junk)) > 0)
				;
		if (!(want & EPOLLOUT) && (had & EPOLLOUT))
			while (send(real_fd[i], junk, sizeof(junk), MSG_DONTWAIT | MSG_NOSIGNAL) > 0)
				;
		if ((want & EPOLLIN) && !(had & EPOLLIN))
			(void) !write(real_peer[i], "x", 1);
		if (!(want & EPOLLIN) && (had & EPOLLIN))
			while (read(real_fd[i], junk, sizeof(junk)) > 0)
				;
	} else if (r == 4)
		shutdown(real_peer[i], SHUT_WR);
	else {
		close(real_peer[i]);
		real_peer[i] = -1;
	}
	set_ready(i, want);
}

static void run(void)
{
	struct epoll_event re[NFD];

	mc_heap_reset();
	mc_alloc_reset(0);
	memset(&K, 0, sizeof(K));
	inject = eintr_left = 0;
	real_ep = epoll_create1(0);
	for (int i = 0; i < nfds; i++) {
		int sv[2], small = 4096;
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv)) {
			mc_fail("harness", "no socket pair");
			return;
		}
		setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
		real_fd[i] = sv[0];
		real_peer[i] = sv[1];
		pready[i] = 0;
		open_fd(i);
	}
	if (sc_sock_poll_init(&p)) {
		mc_fail("init", "init fails");
		return;
	}
	for (int s = 0; s < depth; s++) {
		int k = mc_choose(nfds * 20 + 1);
		if (k == nfds * 20) {
			int n, m, got = 0;
			mc_note("wait\n");
			{
				int before[NFD], bits = 0, rbits = 0;
				for (int i = 0; i < nfds; i++)
					bits |= (before[i] = (int) pending(&K.fd[i])) << (i * 15);
				m = epoll_wait(real_ep, re, NFD, 0);
				for (int j = 0; j < m; j++)
					rbits |= (int) (re[j].events & 0x7fff) << ((int) re[j].data.u64 * 15);
				compare("ready", bits, rbits);
			}
			(void) n;
			(void) got;
			do_wait(0, 0);
		} else {
			int i = k / 20, o = k % 20;
			if (o < 14) {
				mc_note("%s %d %d\n", o < 7 ? "add" : "del", i, o % 7 + 1);
				ctl(i, o < 7, o % 7 + 1, 0, 0);
			} else {
				o -= 14;
				if (pready[i] == 5 || (pready[i] == 4 && o != 5) || pready[i] == o || (pready[i] >= 2 && o >= 4))
					mc_prune();
				mc_note("ready %d %d\n", i, o);
				real_ready(i, o);
				pready[i] = o;
			}
		}
	}
}
static void cleanup(void)
{
	for (int i = 0; i < nfds; i++) {
		close(real_fd[i]);
		close(real_peer[i]);
	}
	close(real_ep);
}
static void run2(void)
{
	static bool open;

	if (open)
		cleanup(); /* of a pruned run */
	open = true;
	run();
}
int main(int argc, char **argv)
{
	mc_init(argc, argv);
	for (nfds = 1; nfds <= NFD; nfds++) {
		depth = (nfds == 1 ? 4 : 3) + mc_thorough;
		if (mc_mine("kernel %d descriptors depth %d", nfds, depth))
			mc_dfs(run2, 0, UINT64_MAX);
	}
	mc_count("results_equal_to_kernel", agree);
	mc_count("results_different_from_kernel", differ);
	mc_validated = agree;
	return mc_done();
}
#else
/* ---- histories ------------------------------------------------------------------------ */
/* operations: per fd 14 calls x 2 data x {ok, failing}, readiness, wait, close */
#define PERFD (14 * 2 * 2 + NREADY)
#define NOPS (NFD * PERFD + 5)

static void init(void)
{
	memset(&K, 0, sizeof(K));
	memset(R, 0, sizeof(R));
	inject = eintr_left = 0;
	memset(&p, 0x33, sizeof(p));
	if (sc_sock_poll_init(&p))
		mc_fail("init", "init fails: %s", sc_sock_poll_err(&p));
	memset(p.events, 0, sizeof(*p.events) * SC_SOCK_POLL_MAX_EVENTS);
	open_fd(0);
	open_fd(1);
}
static bool apply(int op)
{
	if (op < NFD * PERFD) {
		int i = op / PERFD, o = op % PERFD;

		if (!K.fd[i].open)
			return false;
		if (o < NREADY) {
			if (K.fd[i].ready == readies[o])
				return false;
			set_ready(i, readies[o]);
			return true;
		}
		o -= NREADY;
		ctl(i, o % 14 < 7, o % 14 % 7 + 1, o / 14 % 2, o / 28 ? ENOMEM : 0);
		return true;
	}
	op -= NFD * PERFD;
	switch (op) {
	case 0:
	case 1:
		do_wait(op, op ? -1 : 7);
		return true;
	case 2: { /* failing wait */
		struct kernel before = K;
		int n;

		inject = EINVAL;
		inject_what = F_WAIT;
		n = sc_sock_poll_wait(&p, 3);
		MC_CHECK(n < 0 && strstr(sc_sock_poll_err(&p), strerror(EINVAL)), "wait-fail", "failing wait returns %d, '%s'", n,
			 sc_sock_poll_err(&p));
		MC_CHECK(!memcmp(&before, &K, sizeof(K)), "wait-fail", "a failing wait changes the poller");
		return true;
	}
	case 3: /* the socket is closed */
		if (!K.fd[0].open)
			return false;
		MC_CHECK(sc_sock_term(&sock) == 0, "term", "sc_sock_term fails");
		R[0].mask = R[0].data = 0;
		return true;
	default: /* and used again */
		if (K.fd[0].open)
			return false;
		open_fd(0);
		return true;
	}
}
static void check(void)
{
	for (int i = 0; i < NFD; i++)
		if (K.fd[i].open)
			reg_check(i, (int) fdt(i)->op);
	do_wait(0, 0);
	do_wait(2, 0);
}
static void term(void)
{
	int rc = sc_sock_poll_term(&p);

	MC_CHECK(rc == 0 && !K.ep_open, "term", "term returns %d, poller %s", rc, K.ep_open ? "open" : "closed");
	rc = sc_sock_poll_term(&p);
	MC_CHECK(rc == 0, "term-again", "second term returns %d", rc);
}
static void opname(int op, char *b, size_t n)
{
	if (op < NFD * PERFD) {
		int i = op / PERFD, o = op % PERFD;
		if (o < NREADY)
			snprintf(b, n, "descriptor %d becomes %x", i, readies[o]);
		else {
			o -= NREADY;
			snprintf(b, n, "%s(%d, %s, data %d)%s", o % 14 < 7 ? "add" : "del", i, evname(o % 14 % 7 + 1), o / 14 % 2,
				 o / 28 ? " fails" : "");
		}
	} else {
		static const char *s[] = {"wait", "wait, interrupted", "wait fails", "socket closed", "socket opened"};
		snprintf(b, n, "%s", s[op - NFD * PERFD]);
	}
}

/* creation and termination */
static void life(void)
{
	int f = mc_choose(4), rc, n, e;

	mc_heap_reset();
	memset(&K, 0, sizeof(K));
	memset(R, 0, sizeof(R));
	memset(&p, 0x5c, sizeof(p));
	mc_alloc_reset(f == 1 ? 1 : 0);
	inject = f == 2 ? EMFILE : f == 3 ? EIO : 0;
	inject_what = f == 2 ? F_CREATE : F_CLOSE;
	errno = 0;
	rc = sc_sock_poll_init(&p);
	e = errno;
	mc_alloc_reset(0);
	if (f == 1 || f == 2) {
		MC_CHECK(rc == -1 && e == (f == 1 ? ENOMEM : EMFILE), "init-rc", "failing init returns %d, errno %d", rc, e);
		MC_CHECK(strstr(sc_sock_poll_err(&p), strerror(f == 1 ? ENOMEM : EMFILE)), "init-text", "error text '%s'",
			 sc_sock_poll_err(&p));
	} else {
		MC_CHECK(rc == 0 && K.ep_open, "init-rc", "init returns %d", rc);
		rc = sc_sock_poll_term(&p);
		MC_CHECK(rc == (f == 3 ? -1 : 0), "term-rc", "term returns %d", rc);
		if (f == 3)
			MC_CHECK(strstr(sc_sock_poll_err(&p), strerror(EIO)), "term-text", "error text '%s'", sc_sock_poll_err(&p));
	}
	MC_CHECK(!K.ep_open && mc_live_blocks() == 0, "leak", "poller or memory left");
	n = mc_choose(3);
	if (n) {
		rc = n == 1 ? sc_sock_poll_term(&p) : sc_sock_poll_wait(&p, 0);
		MC_CHECK(n == 1 ? rc == 0 : rc < 0 && *sc_sock_poll_err(&p), "ended", "%s of an ended poller returns %d",
			 n == 1 ? "term" : "wait", rc);
	}
}

int main(int argc, char **argv)
{
	static struct mc_sys s = {.init = init, .nops = NOPS, .apply = apply, .check = check, .term = term, .opname = opname,
				  .max_depth = 1000};

	mc_init(argc, argv);
	if (mc_mine("lifecycle"))
		mc_dfs(life, 0, 1000);
	if (mc_mine("histories")) {
		s.max_states = mc_thorough ? 4000000 : 400000;
		mc_regions_clear();
		mc_region(&p, sizeof(p));
		mc_region(&K, sizeof(K));
		mc_region(R, sizeof(R));
		mc_region(&sock, sizeof(sock));
		mc_region(&pip, sizeof(pip));
		mc_bfs(&s);
	}
	return mc_done();
}
#endif
