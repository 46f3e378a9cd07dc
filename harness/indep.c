/* C39: two threads, each with objects of its own: no shared writes, and the results
 * of each thread alone.  See indep_ops.c for the calls. */
#define _GNU_SOURCE
#include "indep.h"
#include "sc_crc32.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <arpa/inet.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

void rec(struct tr *t, const void *p, size_t n)
{
	uint64_t h[2] = {t->hash, n};
	t->hash = mc_hash(p, n, mc_hash(h, sizeof(h), 77));
	t->calls++;
	if (sched_self() >= 0)
		sched_point("call");
}
void recs(struct tr *t, const char *s)
{
	rec(t, s ? s : "(null)", s ? strlen(s) + 1 : 7);
}
void reci(struct tr *t, long v)
{
	rec(t, &v, sizeof(v));
}

/* ---- C library functions that write to their arguments ------------------------- */
int mc_vsnprintf(char *b, size_t n, const char *f, va_list a)
{
	int r = vsnprintf(b, n, f, a);
	if (n && r >= 0)
		sched_write(b, (size_t) r < n ? (size_t) r + 1 : n);
	return r;
}
int mc_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int r = mc_vsnprintf(b, n, f, a);
	va_end(a);
	return r;
}
int mc_vsprintf(char *b, const char *f, va_list a)
{
	int r = vsprintf(b, f, a);
	sched_write(b, (size_t) r + 1);
	return r;
}
int mc_sprintf(char *b, const char *f, ...)
{
	va_list a;
	va_start(a, f);
	int r = mc_vsprintf(b, f, a);
	va_end(a);
	return r;
}
char *mc_strcat(char *d, const char *s)
{
	sched_write(d + strlen(d), strlen(s) + 1);
	return strcat(d, s);
}
char *mc_strncat(char *d, const char *s, size_t n)
{
	sched_write(d + strlen(d), strnlen(s, n) + 1);
	return strncat(d, s, n);
}
char *mc_stpcpy(char *d, const char *s)
{
	sched_write(d, strlen(s) + 1);
	return stpcpy(d, s);
}
void *mc_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	void *p = mmap(a, n, prot, flags, fd, off);
	if (p != MAP_FAILED)
		sched_fresh(p, n < 64 ? n : 64); /* what the scripts touch */
	return p;
}
ssize_t mc_read(int fd, void *b, size_t n)
{
	ssize_t r = read(fd, b, n);
	if (r > 0)
		sched_write(b, (size_t) r);
	return r;
}
ssize_t mc_recv(int fd, void *b, size_t n, int f)
{
	ssize_t r = recv(fd, b, n, f);
	if (r > 0)
		sched_write(b, (size_t) r);
	return r;
}
char *mc_fgets(char *b, int n, FILE *f)
{
	char *r = fgets(b, n, f);
	if (r)
		sched_write(b, strlen(b) + 1);
	return r;
}
int mc_strerror_r(int e, char *b, size_t n)
{
	const char *s = strerror(e);
	sched_write(b, n);
	snprintf(b, n, "%s", s);
	return 0;
}
const char *mc_inet_ntop(int af, const void *s, char *b, socklen_t n)
{
	const char *r = inet_ntop(af, s, b, n);
	if (r)
		sched_write(b, strlen(b) + 1);
	return r;
}
int mc_inet_pton(int af, const char *s, void *b)
{
	int r = inet_pton(af, s, b);
	if (r == 1)
		sched_write(b, af == AF_INET ? 4 : 16);
	return r;
}
static int named(int rc, void *a, socklen_t *n, socklen_t max)
{
	if (rc >= 0 && a && n) {
		sched_write(a, *n < max ? *n : max);
		sched_write(n, sizeof(*n));
	}
	return rc;
}
int mc_getsockname(int fd, struct sockaddr *a, socklen_t *n)
{
	socklen_t max = *n;
	return named(getsockname(fd, a, n), a, n, max);
}
int mc_getpeername(int fd, struct sockaddr *a, socklen_t *n)
{
	socklen_t max = *n;
	return named(getpeername(fd, a, n), a, n, max);
}
int mc_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
	socklen_t max = *n;
	return named(getsockopt(fd, l, o, v, n), v, n, max);
}
int mc_accept(int fd, struct sockaddr *a, socklen_t *n)
{
	socklen_t max = n ? *n : 0;
	return named(accept(fd, a, n), a, n, max);
}
int mc_pipe(int *fd)
{
	int r = pipe(fd);
	if (r == 0)
		sched_write(fd, 2 * sizeof(int));
	return r;
}
int mc_clock_gettime(clockid_t c, struct timespec *t)
{
	int r = clock_gettime(c, t);
	if (r == 0)
		sched_write(t, sizeof(*t));
	return r;
}
struct tm *mc_localtime_r(const time_t *t, struct tm *r)
{
	sched_write(r, sizeof(*r));
	return localtime_r(t, r);
}
struct tm *mc_gmtime_r(const time_t *t, struct tm *r)
{
	sched_write(r, sizeof(*r));
	return gmtime_r(t, r);
}
int mc_epoll_wait(int fd, struct epoll_event *e, int n, int ms)
{
	int r = epoll_wait(fd, e, n, ms);
	if (r > 0)
		sched_write(e, (size_t) r * sizeof(*e));
	return r;
}

/* ---- C library functions with hidden or process wide state --------------------- */
#define UNSAFE(f)                                                              \
	void mc_##f(void)                                                      \
	{                                                                      \
		mc_fail("shared-state", "%s() keeps or changes state of the whole process", #f); \
	}
UNSAFE(strtok) UNSAFE(rand) UNSAFE(srand) UNSAFE(random) UNSAFE(srandom) UNSAFE(drand48)
UNSAFE(lrand48) UNSAFE(mrand48) UNSAFE(gethostbyname) UNSAFE(gethostbyaddr)
UNSAFE(getservbyname) UNSAFE(inet_ntoa) UNSAFE(localtime) UNSAFE(gmtime) UNSAFE(asctime)
UNSAFE(ctime) UNSAFE(setlocale) UNSAFE(tmpnam) UNSAFE(setenv) UNSAFE(putenv)
UNSAFE(unsetenv) UNSAFE(chdir) UNSAFE(umask) UNSAFE(ecvt) UNSAFE(fcvt) UNSAFE(l64a)
UNSAFE(hsearch) UNSAFE(hcreate) UNSAFE(sigprocmask) UNSAFE(alarm) UNSAFE(setrlimit)

/* ---- pairs ------------------------------------------------------------------------ */
static int pair[2], var[2];
static uint64_t solo[80][2];
static int solo_calls[80][2];
static struct tr trs[2];

static void body(void *arg)
{
	int i = (int) (intptr_t) arg;

	scripts[pair[i]].fn(&trs[i]);
}

static void start(void)
{
	mc_heap_reset();
	mc_no_reuse = true;
	sched_globals(0);
	sched_reset();
	for (int i = 0; i < 2; i++)
		trs[i] = (struct tr){.v = var[i], .id = i};
}

static void run_solo(void)
{
	start();
	sched_spawn(body, (void *) (intptr_t) 0);
	MC_CHECK(!sched_run(), "blocked", "%s alone does not end", scripts[pair[0]].name);
	solo[pair[0]][var[0]] = trs[0].hash;
	solo_calls[pair[0]][var[0]] = trs[0].calls;
	MC_CHECK(!mc_live_blocks(), "leak", "%s alone: memory is left", scripts[pair[0]].name);
}

static void run_pair(void)
{
	start();
	for (int i = 0; i < 2; i++)
		sched_spawn(body, (void *) (intptr_t) i);
	MC_CHECK(!sched_run(), "blocked", "%s and %s do not end", scripts[pair[0]].name,
		 scripts[pair[1]].name);
	for (int i = 0; i < 2; i++)
		MC_CHECK(trs[i].hash == solo[pair[i]][var[i]] && trs[i].calls == solo_calls[pair[i]][var[i]],
			 "disturbed", "the results of '%s' in variant %d are changed by '%s' in variant %d "
			 "in another thread", scripts[pair[i]].name, var[i], scripts[pair[!i]].name, var[!i]);
	MC_CHECK(!mc_live_blocks(), "leak", "memory is left");
	mc_evals++;
	mc_distinct_add((int[]){pair[0], pair[1], var[0], var[1]}, 16);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	sc_crc32_init();
	sched_globals(1);
	for (pair[0] = 0; pair[0] < nscripts; pair[0]++)
		for (var[0] = 0; var[0] < 2; var[0]++) {
			sched_first = true;
			run_solo();
			sched_first = false;
		}
	for (pair[0] = 0; pair[0] < nscripts; pair[0]++)
		for (pair[1] = pair[0]; pair[1] < nscripts; pair[1]++)
			for (int vv = 0; vv < 2; vv++) {
				int dev = pair[0] == pair[1] ? 3 : !strncmp(scripts[pair[0]].name, scripts[pair[1]].name, 4) ? 2 : 1;
				var[0] = 0;
				var[1] = vv;
				if (mc_mine("%s, %s variant %d", scripts[pair[0]].name, scripts[pair[1]].name, vv))
					mc_dfs(run_pair, dev + mc_thorough, UINT64_MAX);
			}
	return mc_done();
}
