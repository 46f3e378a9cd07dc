/* C22: shutdown signals arriving at every instruction of the handler of another
 * one, all answers of write(), failing registration.
 * -DFATAL: C23, fatal signals: every pair, every instruction. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_signal.h"
#include "step.h"

#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern char __start_sc_bss[] __attribute__((weak)), __stop_sc_bss[] __attribute__((weak));
extern char __start_sc_data[] __attribute__((weak)), __stop_sc_data[] __attribute__((weak));
static char keep[2][65536];

static void globals(int save)
{
	size_t n = (size_t) (__stop_sc_bss - __start_sc_bss);
	size_t m = (size_t) (__stop_sc_data - __start_sc_data);

	if (n > sizeof(keep[0]) || m > sizeof(keep[1]))
		abort();
	if (__start_sc_bss)
		memcpy(save ? keep[0] : __start_sc_bss, save ? __start_sc_bss : keep[0], n);
	if (__start_sc_data)
		memcpy(save ? keep[1] : __start_sc_data, save ? __start_sc_data : keep[1], m);
}

/* ---- environment -------------------------------------------------------- */
#define LOGFD 90
#define SHUTFD 91

struct shared {
	volatile int nlog, log_fd, nbytes, exited, code, unsafe;
	char log[8192];
};
static struct shared *sh;
static volatile int in_handler, no_step;
static int shut_fd = SHUTFD, shut_answer, log_answer, null_fd;
static long calls, fail_call;
static bool failed;
static sigjmp_buf out;
static struct sigaction lib[65];
static bool have[65], ignored[65];

STEP_SKIP ssize_t mc_write(int fd, const void *b, size_t n)
{
	const char *p = b;

	if (fd == shut_fd) {
		if (shut_answer == 1) {
			sh->nbytes += (int) n;
			return (ssize_t) n;
		}
		errno = shut_answer < 0 ? -shut_answer : errno;
		return shut_answer < 0 ? -1 : 0;
	}
	if (log_answer) {
		errno = log_answer;
		return -1;
	}
	sh->log_fd = fd;
	for (size_t i = 0; i < n && sh->nlog < (int) sizeof(sh->log) - 1; i++)
		((volatile char *) sh->log)[sh->nlog++] = p[i];
	errno = 99; /* a successful call may change errno, too */
	return (ssize_t) n;
}

STEP_SKIP void mc__Exit(int code)
{
	step_end();
	if (sh->exited)
		code = -1000;
	sh->exited = 1;
	sh->code = code;
#ifdef FATAL
	_exit(code);
#else
	siglongjmp(out, 1);
#endif
}

static void unsafe(const char *f)
{
	(void) f;
	if (in_handler)
		sh->unsafe = 1;
}
int mc_printf(const char *f, ...)
{
	va_list va;
	int rc;
	unsafe("printf");
	va_start(va, f);
	rc = vprintf(f, va);
	va_end(va);
	return rc;
}
int mc_fprintf(FILE *o, const char *f, ...)
{
	va_list va;
	int rc;
	unsafe("fprintf");
	va_start(va, f);
	rc = vfprintf(o, f, va);
	va_end(va);
	return rc;
}
int mc_vsnprintf(char *b, size_t n, const char *f, va_list va)
{
	unsafe("vsnprintf");
	return vsnprintf(b, n, f, va);
}
int mc_snprintf(char *b, size_t n, const char *f, ...)
{
	va_list va;
	int rc;
	unsafe("snprintf");
	va_start(va, f);
	rc = vsnprintf(b, n, f, va);
	va_end(va);
	return rc;
}
int mc_puts(const char *s)
{
	unsafe("puts");
	return puts(s);
}
int mc_fflush(FILE *f)
{
	unsafe("fflush");
	return fflush(f);
}
void mc_exit(int n)
{
	unsafe("exit");
	mc__Exit(n);
}

static bool fails(void)
{
	if (++calls != fail_call)
		return false;
	failed = true;
	errno = EINVAL;
	return true;
}

STEP_SKIP static void trampoline(int sig, siginfo_t *si, void *c)
{
	int saved;

	if (sh->exited)
		return;
	in_handler++;
	saved = in_handler;
	if (saved == 1 && !no_step)
		step_begin();
	if (lib[sig].sa_flags & SA_SIGINFO)
		lib[sig].sa_sigaction(sig, si, c);
	else
		lib[sig].sa_handler(sig);
	if (saved == 1)
		step_end();
	in_handler--;
}

static bool is_fatal(int s)
{
	return s == SIGSEGV || s == SIGABRT || s == SIGBUS || s == SIGFPE || s == SIGILL;
}

STEP_SKIP int mc_sigaction(int s, const struct sigaction *a, struct sigaction *old)
{
	struct sigaction real;

	if (!in_handler && fails())
		return -1;
	if (!a)
		return sigaction(s, a, old);
	real = *a;
	if ((a->sa_flags & SA_SIGINFO) ||
	    (a->sa_handler != SIG_DFL && a->sa_handler != SIG_IGN)) {
		lib[s] = *a;
		have[s] = true;
		ignored[s] = false;
		real.sa_sigaction = trampoline;
		real.sa_flags |= SA_SIGINFO;
	} else {
		ignored[s] = a->sa_handler == SIG_IGN;
		have[s] = false;
	}
#ifndef FATAL
	if (is_fatal(s)) /* the explorer's own handlers stay */
		return 0;
#endif
	return sigaction(s, &real, old);
}
void (*mc_signal(int s, void (*h)(int)))(int)
{
	struct sigaction a;

	if (!in_handler && fails())
		return SIG_ERR;
	memset(&a, 0, sizeof(a));
	a.sa_handler = h;
	a.sa_flags = SA_RESTART;
	calls--;
	return mc_sigaction(s, &a, NULL) ? SIG_ERR : SIG_DFL;
}
STEP_SKIP int mc_sigemptyset(sigset_t *s)
{
	if (!in_handler && fails())
		return -1;
	return sigemptyset(s);
}

static void fresh(void)
{
	sigset_t none;

	memset(sh, 0, sizeof(*sh));
	memset(have, 0, sizeof(have));
	memset(ignored, 0, sizeof(ignored));
	calls = fail_call = 0;
	failed = false;
	in_handler = 0;
	log_answer = 0;
	globals(0);
	sigemptyset(&none);
	sigprocmask(SIG_SETMASK, &none, NULL);
	mc_alloc_reset(0);
	mc_note_reset();
	mc_tick();
	mc_evals++;
}

static bool logged(const char *s)
{
	sh->log[sh->nlog] = 0;
	return strstr(sh->log, s) != NULL;
}

#ifndef FATAL
static volatile int second;
static void arrive(void)
{
	raise(second);
}

static const char *name(int s)
{
	return s == SIGINT ? "SIGINT" : "SIGTERM";
}

/* first signal, the second one at instruction k of its handler (0: none),
 * then a third one; returns the number of instructions of the first handler */
static long protocol(int a, int b, long k, int c, int fd, int answer, int lfd, int lans)
{
	volatile int n = 0;
	volatile long total = 0;
	int want;

	fresh();
	MC_CHECK(sc_signal_init() == 0, "init", "init failed without a reason");
	sc_signal_shutdown_fd = fd;
	sc_signal_log_fd = lfd;
	shut_fd = fd == -1 ? SHUTFD : fd;
	shut_answer = answer;
	log_answer = lans;
	second = b;
	if (mc_replaying)
		mc_note("%s, at instruction %ld %s, then %s; shutdown fd %d (write: %d), log fd %d (%d)",
			name(a), k, k ? name(b) : "none", c ? name(c) : "none", fd, answer, lfd,
			lans);
	errno = 4711;
	if (!sigsetjmp(out, 1)) {
		step_arm(k, arrive);
		n = 1;
		raise(a);
		total = step_count;
		if (k && step_hit)
			n++;
		if (!sh->exited && c) {
			MC_CHECK(errno == 4711, "errno", "the handler changed errno to %d", errno);
			step_arm(0, NULL);
			n++;
			raise(c);
		}
	} else {
		total = total ? total : step_count;
		if (k && step_hit && n == 1)
			n = 2;
	}
	/* a blocked signal stays pending when the handler exits */
	signal(SIGINT, SIG_IGN);
	signal(SIGTERM, SIG_IGN);
	in_handler = 0;
	MC_CHECK(!sh->unsafe && mc_alloc_calls == 0, "unsafe",
		 "the handler calls a function that is not async signal safe");
	MC_CHECK(sh->code != -1000, "exit", "_Exit() called twice");
	if (!sh->exited)
		MC_CHECK(errno == 4711, "errno", "the handler changed errno to %d", errno);
	if (fd == -1) {
		MC_CHECK(sh->exited && (sh->code == 0 || (k && sh->code == 1)), "noshut",
			 "no shutdown fd: exited %d with code %d", sh->exited, sh->code);
	} else if (answer != 1) {
		MC_CHECK(sh->exited && sh->code == 1, "wrfail",
			 "write to the shutdown fd failed: exited %d with code %d", sh->exited,
			 sh->code);
	} else if (n >= 2) {
		MC_CHECK(sh->exited && sh->code == 1, "twice",
			 "two shutdown signals: exited %d with code %d, %d bytes sent", sh->exited,
			 sh->code, sh->nbytes);
		MC_CHECK(sh->nbytes == 1 || (k && sh->nbytes == 0), "bytes",
			 "%d bytes written to the shutdown fd", sh->nbytes);
	} else {
		MC_CHECK(!sh->exited, "once", "exited with %d on the first shutdown signal",
			 sh->code);
		MC_CHECK(sh->nbytes == 1, "bytes", "%d bytes written to the shutdown fd",
			 sh->nbytes);
	}
	if (!lans) {
		want = lfd == -1 ? STDOUT_FILENO : lfd;
		MC_CHECK(sh->nlog && sh->log_fd == want, "logfd", "log written to %d, not %d",
			 sh->log_fd, want);
		MC_CHECK(logged(name(a)) || (k && logged(name(b))), "log",
			 "the log does not name the signal");
	}
	mc_distinct_add(&(int[5]){sh->exited, sh->code, sh->nbytes, n, sh->nlog}, 20);
	return total;
}

int main(int argc, char **argv)
{
	static const int fds[][2] = {{SHUTFD, 1}, {-1, 1}, {SHUTFD, -EAGAIN}, {SHUTFD, -EPIPE},
				     {SHUTFD, -EINTR}, {SHUTFD, 0}};
	static const int sigs[] = {SIGINT, SIGTERM};

	mc_init(argc, argv);
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	step_install();
	globals(1);
	for (int f = 0; f < 6; f++)
		for (int l = 0; l < 4; l++)
			for (int a = 0; a < 2; a++)
				for (int b = 0; b < 2; b++) {
					int lfd = l & 1 ? LOGFD : -1, lans = l & 2 ? EIO : 0;
					long total;

					if (!mc_thorough && (f > 1 ? l : f ? l > 1 : 0))
						continue;
					if (!mc_thorough && f && a == b)
						continue;
					if (!mc_mine("shutdown fd case %d, log case %d, %s, %s", f, l,
						     name(sigs[a]), name(sigs[b])))
						continue;
					total = protocol(sigs[a], 0, 0, 0, fds[f][0], fds[f][1], lfd, lans);
					MC_CHECK(total > 20, "step", "single stepping does not work");
					protocol(sigs[a], 0, 0, sigs[b], fds[f][0], fds[f][1], lfd, lans);
					for (long k = 1; k <= total; k++)
						protocol(sigs[a], sigs[b], k,
							 k % 2 ? sigs[b] : 0, fds[f][0], fds[f][1],
							 lfd, lans);
					mc_count("instruction_boundaries", (uint64_t) total);
				}
	/* every low descriptor is a descriptor */
	if (mc_mine("descriptors"))
		for (int f = 0; f < 6; f++)
			for (int l = 0; l < 6; l++)
				for (int a = 0; a < 2; a++)
					for (int b = 0; b < 3; b++) {
						static const int all[] = {-1, 0, 1, 2, LOGFD, 1000};
						if (all[f] == all[l] || (all[l] == -1 && all[f] == 1))
							continue;
						protocol(sigs[a], 0, 0, b < 2 ? sigs[b] : 0, all[f], 1, all[l], 0);
					}
	if (mc_mine("registration")) {
		long n;
		fresh();
		sc_signal_shutdown_fd = sc_signal_log_fd = 55;
		MC_CHECK(sc_signal_init() == 0, "init", "init failed without a reason");
		n = calls;
		MC_CHECK(sc_signal_shutdown_fd == -1 && sc_signal_log_fd == -1, "fds",
			 "descriptors not reset by init");
		MC_CHECK(ignored[SIGHUP] && ignored[SIGPIPE], "ignored",
			 "SIGHUP and SIGPIPE are not ignored");
		raise(SIGPIPE);
		raise(SIGHUP);
		for (int s = 1; s < 32; s++)
			MC_CHECK(have[s] == (is_fatal(s) || s == SIGINT || s == SIGTERM),
				 "handlers", "handler of signal %d: %d", s, have[s]);
		for (long k = 1; k <= n; k++) {
			fresh();
			fail_call = k;
			MC_CHECK(sc_signal_init() == -1 && failed, "initfail",
				 "init succeeded although call %ld failed", k);
		}
	}
	mc_sample("SIGTERM arriving at instruction 300 of the SIGINT handler");
	return mc_done();
}
#else
static volatile int second;
static void arrive(void)
{
	raise(second);
}

static const int fatal[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGINT};
static const char *const names[] = {"SIGSEGV", "SIGABRT", "SIGBUS", "SIGFPE", "SIGILL"};
static volatile long *count_sh;

/* how: 0 raise(), 1 real fault */
static long crash(int a, int b, long k, int how, int lfd, int lans)
{
	int status;
	pid_t p;
	char num[32];

	fresh();
	if (mc_replaying)
		mc_note("%s (%d), at instruction %ld %d, log fd %d (%d)", names[a], how, k,
			k ? fatal[b] : 0, lfd, lans);
	*count_sh = 0;
	fflush(stdout);
	p = fork();
	if (p == -1) {
		mc_incomplete("fork failed");
		return 0;
	}
	if (p == 0) {
		struct rlimit none = {0, 0};
		setrlimit(RLIMIT_CORE, &none);
		prctl(PR_SET_DUMPABLE, 0);
		signal(SIGALRM, SIG_DFL);
		alarm(20);
		if (sc_signal_init() != 0)
			_exit(77);
		sc_signal_log_fd = lfd;
		sc_signal_shutdown_fd = shut_fd = SHUTFD;
		shut_answer = 1;
		for (int i = 0; i <= 2 && lfd >= 0 && lfd <= 2; i++)
			dup2(null_fd, i);
		log_answer = lans;
		second = fatal[b];
		no_step = k == 0;
		step_arm(k, arrive);
		if (how) {
			volatile int zero = 0;
			if (a == 0)
				*(volatile int *) (uintptr_t) zero = 1;
			else if (a == 1)
				abort();
			else if (a == 3)
				__asm__ volatile("xorl %%edx, %%edx\n\tidivl %0" : : "r"(zero), "a"(1) : "edx");
			else if (a == 4)
				__asm__ volatile("ud2");
			else
				raise(fatal[a]);
		} else {
			raise(fatal[a]);
		}
		_exit(78);
	}
	while (waitpid(p, &status, 0) == -1 && errno == EINTR)
		;
	MC_CHECK(WIFSIGNALED(status), "dies", "%s, then %d at instruction %ld: status %x",
		 names[a], k ? fatal[b] : 0, k, status);
	MC_CHECK(WTERMSIG(status) == fatal[a] || (k && b < 5 && WTERMSIG(status) == fatal[b]),
		 "signal", "%s, then %d at instruction %ld: died of signal %d", names[a],
		 k ? fatal[b] : 0, k, WTERMSIG(status));
	MC_CHECK(!sh->unsafe, "unsafe",
		 "the handler calls a function that is not async signal safe");
	if (!lans) {
		if (!k || b == 5 || sh->nlog)
			MC_CHECK(sh->log_fd == (lfd == -1 ? STDERR_FILENO : lfd) ||
					 (k && b == 5 && lfd == -1 && sh->log_fd == STDOUT_FILENO),
				 "logfd", "report of %s written to %d", names[a], sh->log_fd);
		snprintf(num, sizeof(num), "%d", fatal[a]);
		if (!k || b == 5)
			MC_CHECK(logged(names[a]) && logged(num) && logged("END"), "report",
				 "incomplete report of %s", names[a]);
	}
	mc_distinct_add(&(int[3]){a, WTERMSIG(status), sh->nlog}, 12);
	return *count_sh;
}

/* the child cannot tell its number of steps when it dies: found by search */
static long length(int a)
{
	long lo = 1, hi = 1 << 16;

	while (lo < hi) { /* least k at which SIGINT no longer arrives */
		long mid = (lo + hi) / 2;
		crash(a, 5, mid, 0, LOGFD, 0);
		if (logged("SIGINT"))
			lo = mid + 1;
		else
			hi = mid;
	}
	return lo;
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	count_sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	null_fd = open("/dev/null", O_RDWR);
	step_install();
	globals(1);
	for (int a = 0; a < 5; a++) {
		if (mc_mine("%s alone", names[a]))
			for (int how = 0; how < 2; how++)
				for (int l = 0; l < 2; l++)
					for (int f = 0; f < 6; f++) {
						static const int lfds[] = {-1, 0, 1, 2, LOGFD, 1000};
						crash(a, 0, 0, how, lfds[f], l ? EIO : 0);
					}
#ifdef ALONE
		continue;
#endif
		for (int b = mc_thorough ? 0 : 6; b < (mc_thorough ? 6 : 7); b++)
			for (int part = 0; part < 8; part++) {
				long n;
				if (!mc_mine("%s interrupted by %d part %d", names[a], b < 6 ? fatal[b] : 0, part))
					continue;
				n = length(a);
				MC_CHECK(n > 20 && n < 60000, "step",
					 "single stepping does not work (%ld)", n);
				for (long k = 1 + part; k <= n; k += 8) {
					const int rot[] = {(a + 1) % 5, a, 5};
					crash(a, b == 6 ? rot[k % 3] : b, k, 0,
					      part & 1 ? LOGFD : -1, 0);
				}
				mc_count("instruction_boundaries", (uint64_t) (n / 8));
			}
	}
	mc_sample("SIGABRT arriving at instruction 1000 of the SIGSEGV handler");
	return mc_done();
}
#endif
