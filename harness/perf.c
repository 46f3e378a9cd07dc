/* Performance counters over a model of the kernel's counters. */
#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/perf_event.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "sc_perf.h"

#define N ((int) (sizeof(sc_perf_hw) / sizeof(*sc_perf_hw)))
struct counter {
	bool open, enabled;
	int event;
	double value;	  /* true number of events while enabled */
	uint64_t enabled_ns;
};
static struct counter cnt[64];
static int ncnt;
static int fd0; /* the first free descriptor */
static uint64_t clock_ns;
static int mux; /* multiplexing: the share each counter is really running */
static jmp_buf jb;
static bool aborted, wrote_err;
static bool fault_on, fault_hit;
static char out[8192];
static size_t outlen;

static bool fails(const char *what, int e)
{
	if (!fault_on || !mc_choose_dev(2))
		return false;
	mc_note("%s fails\n", what);
	fault_hit = true;
	errno = e;
	return true;
}

long mc_syscall(long n, ...)
{
	struct perf_event_attr *a;
	long pid, cpu, group, flags;
	va_list va;
	int e;

	va_start(va, n);
	a = va_arg(va, struct perf_event_attr *);
	pid = va_arg(va, int);
	cpu = va_arg(va, int);
	group = va_arg(va, int);
	flags = va_arg(va, int);
	va_end(va);
	(void) flags;
	MC_CHECK(n == __NR_perf_event_open, "syscall", "system call %ld", n);
	MC_CHECK(pid == 0 && cpu == -1 && group == -1, "target", "counter for process %ld cpu %ld group %ld", pid, cpu, group);
	MC_CHECK(a->size >= PERF_ATTR_SIZE_VER0 && a->size <= sizeof(*a), "attr", "attribute size %u", a->size);
	MC_CHECK(a->read_format == (PERF_FORMAT_TOTAL_TIME_ENABLED | PERF_FORMAT_TOTAL_TIME_RUNNING), "attr", "read format %llx",
		 (unsigned long long) a->read_format);
	MC_CHECK(a->inherit && !a->exclude_user && !a->exclude_kernel && !a->exclude_hv && !a->exclude_idle, "attr",
		 "the counter leaves out a part of the program");
	if (fails("perf_event_open", ENOENT))
		return -1;
	for (e = 0; e < N; e++)
		if (sc_perf_hw[e].type == a->type && sc_perf_hw[e].config == a->config)
			break;
	if (e == N || ncnt == 64) {
		mc_fail("event", "counter of type %u config %llx", a->type, (unsigned long long) a->config);
		return -1;
	}
	for (int i = 0; i < ncnt; i++)
		MC_CHECK(!cnt[i].open || cnt[i].event != e, "twice", "counter %s opened twice", sc_perf_hw[e].name);
	cnt[ncnt] = (struct counter){.open = true, .enabled = !a->disabled, .event = e};
	return fd0 + ncnt++;
}
int mc_prctl(int what, ...)
{
	if (fails("prctl", EINVAL))
		return -1;
	MC_CHECK(what == PR_TASK_PERF_EVENTS_ENABLE || what == PR_TASK_PERF_EVENTS_DISABLE, "prctl", "prctl %d", what);
	for (int i = 0; i < ncnt; i++)
		if (cnt[i].open)
			cnt[i].enabled = what == PR_TASK_PERF_EVENTS_ENABLE;
	return 0;
}
static struct counter *get(int fd, const char *what)
{
	if (fd < fd0 || fd >= fd0 + ncnt || !cnt[fd - fd0].open) {
		mc_fail("badfd", "%s(%d), which is not open", what, fd);
		return &cnt[63];
	}
	return &cnt[fd - fd0];
}
/* share of time each event is counted, in 1/100000 */
static int share(int e)
{
	switch (mux) {
	case 0:
		return 100000;
	case 1:
		return e % 2 ? 50000 : 100000;
	case 2:
		return e % 3 ? 25000 : 80000;
	case 3:
		return e % 4 == 3 ? 0 : 10000 + 1000 * e;
	default:
		return e % 3 == 2 ? 99999 : 33 + 111 * e;
	}
}
static double rate(int e)
{
	return e % 5 == 1 ? 3.7 : 0.001 * (e + 1);
}
static long double want[64]; /* the best estimate from what was read */
ssize_t mc_read(int fd, void *buf, size_t n)
{
	struct counter *c = get(fd, "read");
	uint64_t f[3];

	if (fails("read", EIO))
		return mc_choose(2) ? -1 : 8; /* or short */
	MC_CHECK(n >= sizeof(f), "read", "read of %zu bytes", n);
	f[1] = c->enabled_ns;
	f[2] = (uint64_t) ((unsigned __int128) c->enabled_ns * (unsigned) share(c->event) / 100000);
	f[0] = c->enabled_ns ? (uint64_t) (c->value * (double) f[2] / (double) f[1] + 0.5) : 0;
	want[c->event] = f[2] ? (long double) f[0] * f[1] / f[2] : f[0];
	memcpy(buf, f, sizeof(f));
	return sizeof(f);
}
int mc_close(int fd)
{
	get(fd, "close")->open = false;
	return 0;
}
int mc_ioctl(int fd, unsigned long req, ...)
{
	struct counter *c = get(fd, "ioctl");

	if (fails("ioctl", EINVAL))
		return -1;
	if (req == PERF_EVENT_IOC_ENABLE)
		c->enabled = true;
	else if (req == PERF_EVENT_IOC_DISABLE)
		c->enabled = false;
	else
		mc_fail("ioctl", "ioctl %lx", req);
	return 0;
}
int mc_clock_gettime(clockid_t id, struct timespec *ts)
{
	MC_CHECK(id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC, "clock", "clock %d is not monotonic", (int) id);
	if (fails("clock_gettime", EINVAL))
		return -1;
	ts->tv_sec = (time_t) (clock_ns / 1000000000u);
	ts->tv_nsec = (long) (clock_ns % 1000000000u);
	return 0;
}
int mc_vfprintf(FILE *f, const char *fmt, va_list va)
{
	if (f == stderr) {
		wrote_err = true;
		return 0;
	}
	outlen += (size_t) vsnprintf(out + outlen, sizeof(out) - outlen, fmt, va);
	return 0;
}
int mc_fprintf(FILE *f, const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	mc_vfprintf(f, fmt, va);
	va_end(va);
	return 0;
}
int mc_printf(const char *fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	mc_vfprintf(stdout, fmt, va);
	va_end(va);
	return 0;
}
int mc_puts(const char *s)
{
	return mc_fprintf(stdout, "%s\n", s);
}
int mc_fputs(const char *s, FILE *f)
{
	return mc_fprintf(f, "%s", s);
}
int mc_fflush(FILE *f)
{
	(void) f;
	return 0;
}
void mc_abort(void)
{
	aborted = true;
	longjmp(jb, 1);
}

/* reference */
static bool r_init, r_run;
static uint64_t r_ns;

static void work(uint64_t ns)
{
	clock_ns += ns;
	for (int i = 0; i < ncnt; i++)
		if (cnt[i].open && cnt[i].enabled) {
			cnt[i].enabled_ns += ns;
			cnt[i].value += (double) ns * rate(cnt[i].event);
		}
	if (r_run)
		r_ns += ns;
}
static bool near(double a, double b)
{
	double d = a > b ? a - b : b - a;
	return d <= 0.51 + b * 1e-12; /* a fraction may be cut */
}
static void report(void)
{
	int rows = 0;
	char *l = out;

	out[outlen] = 0;
	while (*l) {
		char *e = strchr(l, '\n'), name[64];
		double v, pc;
		char rest[64];

		if (e)
			*e = 0;
		memset(name, 0, sizeof(name));
		if (sscanf(l, "| time (seconds) | %lf | (%60[^)])", &v, rest) == 2) {
			double s = (double) r_ns / 1e9;
			MC_CHECK(v >= s - 0.0051 && v <= s + 0.0051, "time", "time %.2f printed for %.9f seconds", v, s);
			rows |= 1 << 30;
		} else if (sscanf(l, "| %60[^ ] | %lf | (%lf%%)", name, &v, &pc) == 3) {
			int i, k = -1;
			double wpc;
			for (i = 0; i < N; i++)
				if (!strcmp(sc_perf_hw[i].name, name))
					k = i;
			MC_CHECK(k >= 0 && !(rows >> k & 1), "row", "unexpected row '%s'", l);
			rows |= 1 << k;
			wpc = r_ns ? share(k) / 1000.0 : 0;
			MC_CHECK(near(v, (double) want[k]), "value", "%s: %.2f printed, %.2Lf happened, counted %.3f%% of the time", name, v,
				 want[k], share(k) / 1000.0);
			MC_CHECK(pc >= wpc - 0.0051 && pc <= wpc + 0.0051, "share", "%s: %.2f%% printed, counted %.3f%% of the time", name, pc,
				 share(k) / 1000.0);
		}
		if (!e)
			break;
		l = e + 1;
	}
	MC_CHECK(rows == ((1 << N) - 1 | 1 << 30), "rows", "rows %x printed", rows);
}
static int nopen(void)
{
	int n = 0;
	for (int i = 0; i < ncnt; i++)
		n += cnt[i].open;
	return n;
}

extern char __start_sc_bss[] __attribute__((weak)), __stop_sc_bss[] __attribute__((weak));
extern char __start_sc_data[] __attribute__((weak)), __stop_sc_data[] __attribute__((weak));
static char savebss[16384], savedata[4096];
__attribute__((no_sanitize("address"), optimize("no-tree-loop-distribute-patterns"))) static void copy(char *d, const char *s,
												       size_t n)
{
	while (n--)
		*d++ = *s++;
}
static void globals(bool save)
{
	size_t n = (size_t) (__stop_sc_bss - __start_sc_bss), d = (size_t) (__stop_sc_data - __start_sc_data);

	if (n > sizeof(savebss) || d > sizeof(savedata)) {
		mc_fail("harness", "library globals too large");
		return;
	}
	if (save) {
		copy(savebss, __start_sc_bss, n);
		copy(savedata, __start_sc_data, d);
	} else {
		copy(__start_sc_bss, savebss, n);
		copy(__start_sc_data, savedata, d);
	}
}

static int depth;
static const uint64_t dur[] = {1000000000u, 7654321000123u};

static void run(void)
{
	volatile int sig = 0;

	globals(false);
	memset(cnt, 0, sizeof(cnt));
	ncnt = 0;
	clock_ns = 5000000123u;
	aborted = wrote_err = fault_hit = false;
	r_init = r_run = false;
	r_ns = 0;
	outlen = 0;
	mux = mc_choose(5);
	fd0 = mc_choose(2) ? 100 : 0;
	mc_note("mux %d\n", mux);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(5);
		bool must_abort = false;

		sig = sig * 5 + op;
		outlen = 0;
		fault_on = true;
		errno = 0;
		if (!setjmp(jb)) {
			switch (op) {
			case 0:
				mc_note("start\n");
				sc_perf_start();
				if (!r_init) {
					r_init = true;
					r_ns = 0;
				}
				r_run = true;
				break;
			case 1:
				mc_note("pause\n");
				must_abort = !r_init;
				sc_perf_pause();
				r_run = false;
				break;
			case 2:
				mc_note("end\n");
				must_abort = !r_init;
				sc_perf_end();
				break;
			default:
				mc_note("work %d\n", op - 3);
				fault_on = false;
				work(dur[op - 3]);
			}
		}
		fault_on = false;
		if (aborted) {
			must_abort = (op == 1 || op == 2) && !r_init;
			MC_CHECK(must_abort || fault_hit, "abort", "abort() without reason");
			MC_CHECK(outlen == 0, "abort-output", "results printed before abort()");
			break;
		}
		MC_CHECK(!must_abort && !fault_hit, "no-abort", "goes on after a failure");
		if (op == 2) {
			r_run = false;
			report();
			MC_CHECK(nopen() == 0, "leak", "%d counters left open", nopen());
			r_init = false;
			r_ns = 0;
		} else {
			MC_CHECK(outlen == 0, "output", "prints before the end");
			MC_CHECK(nopen() == (r_init ? N : 0), "open", "%d counters open", nopen());
			for (int c = 0; c < ncnt; c++)
				MC_CHECK(!cnt[c].open || cnt[c].enabled == r_run, "counting", "counter %s is %s", sc_perf_hw[cnt[c].event].name,
					 cnt[c].enabled ? "running" : "stopped");
		}
	}
	mc_distinct_add(&(int[2]){sig, mux}, 8);
	mc_tick();
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	globals(true);
	for (depth = 1; depth <= 6 + mc_thorough; depth++)
		if (mc_mine("depth %d", depth))
			mc_dfs(run, 1, UINT64_MAX);
	return mc_done();
}
