/* Logger over an in-memory file system.
 * -DCONC: all schedules of concurrent calls; otherwise call histories with
 * failing environment calls.  LOGLIMIT: rotation limit of the library.
 * -DREAL: the histories on real files in a scratch directory. */
#define _GNU_SOURCE
#include "csched.h"
#include "sc_log.h"
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>

/* ---- environment ------------------------------------------------------------ */
#define NINODE 24
#define NHANDLE 24
#ifdef LOGBIG
#define FCAP (5 << 20)
#else
#define FCAP 4096
#endif
struct inode {
	char data[FCAP];
	size_t len;
	char name[300]; /* empty: unlinked */
};
struct handle {
	int inode;
	bool open, append;
	size_t pos;
};
static struct inode ino[NINODE];
static struct handle hnd[NHANDLE];
static int nino, nhnd;
static struct inode term[2]; /* stdout, stderr */
static char *termnames[2] = {"stdout", "stderr"};

static bool fault_hit;	/* in this call */
static const char *fault_where;
static int fault_errno;
static bool faulty; /* some call failed in this execution */
static bool fault_on;
enum { W_NONE, W_STDOUT = 1, W_FILE = 2, W_TIME = 4, W_ROT = 8, W_OPEN = 16, W_TELL = 32 };
static int where_sink;

static bool fails(const char *what, int sink, int e)
{
	if (!fault_on || !mc_choose_dev(2))
		return false;
	fault_hit = faulty = true;
	errno = e;
	if ((sink != W_ROT && sink != W_TELL) || !where_sink) {
		fault_where = what;
		fault_errno = e;
	}
	where_sink |= sink;
	mc_note("%s fails", what);
	return true;
}

static int find(const char *name)
{
	for (int i = 0; i < nino; i++)
		if (ino[i].name[0] && !strcmp(ino[i].name, name))
			return i;
	return -1;
}
static struct handle *handle_of(FILE *f, const char *what)
{
	struct handle *h = (struct handle *) f;

	if (h < hnd || h >= hnd + nhnd)
		mc_fail("badfile", "%s() on something that is not an open file", what);
	else if (!h->open)
		mc_fail("closed", "%s() on a closed file", what);
	return h;
}
static void put(FILE *f, const char *s, size_t n, const char *what)
{
	struct inode *t;
	size_t pos;

	if (f == stdout || f == stderr) {
		t = &term[f == stderr];
		pos = t->len;
	} else {
		struct handle *h = handle_of(f, what);
		t = &ino[h->inode];
		pos = h->append ? t->len : h->pos;
		h->pos = pos + n;
	}
	if (pos + n >= FCAP) {
		mc_fail("harness", "file model full");
		return;
	}
	memcpy(t->data + pos, s, n);
	if (pos + n > t->len)
		t->len = pos + n;
	t->data[t->len] = 0;
}
static int sink_of(FILE *f)
{
	return f == stdout || f == stderr ? W_STDOUT : W_FILE;
}

#ifdef REAL
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
static FILE *files[NHANDLE];

FILE *mc_fopen(const char *name, const char *mode)
{
	FILE *f = fopen(name, mode);

	if (!f) {
		fault_hit = true;
		fault_where = "fopen";
		fault_errno = errno;
		where_sink |= W_OPEN;
	}
	for (int i = 0; f && i < NHANDLE; i++)
		if (!files[i]) {
			files[i] = f;
			nhnd++;
			return f;
		}
	return f;
}
static FILE *real(FILE *f, const char *what)
{
	for (int i = 0; i < NHANDLE; i++)
		if (files[i] && files[i] == f)
			return f;
	mc_fail("closed", "%s() on something that is not an open file", what);
	return f;
}
int mc_fclose(FILE *f)
{
	real(f, "fclose");
	for (int i = 0; i < NHANDLE; i++)
		if (files[i] == f) {
			files[i] = NULL;
			nhnd--;
		}
	return fclose(f);
}
#else
FILE *mc_fopen(const char *name, const char *mode)
{
	int i;
	struct handle *h;

	sched_point("fopen");
	if (fails("fopen", W_OPEN, EACCES))
		return NULL;
	i = find(name);
	if (i < 0 && mode[0] == 'r') {
		errno = ENOENT;
		return NULL;
	}
	if (i < 0) {
		if (nino == NINODE)
			mc_fail("harness", "too many files");
		i = nino++;
		memset(&ino[i], 0, sizeof(ino[i]));
		snprintf(ino[i].name, sizeof(ino[i].name), "%s", name);
	} else if (mode[0] == 'w') {
		MC_CHECK(ino[i].len == 0 || faulty, "truncate", "log file %s truncated", name);
		ino[i].len = 0;
		ino[i].data[0] = 0;
	}
	if (nhnd == NHANDLE)
		mc_fail("harness", "too many handles");
	h = &hnd[nhnd++];
	*h = (struct handle){.inode = i, .open = true, .append = mode[0] == 'a'};
	if (mode[0] == 'a')
		h->pos = ino[i].len;
	return (FILE *) h;
}
int mc_fclose(FILE *f)
{
	sched_point("fclose");
	handle_of(f, "fclose")->open = false;
	return fails("fclose", W_ROT, EIO) ? EOF : 0;
}
#endif
int mc_vfprintf(FILE *f, const char *fmt, va_list va)
{
	static char tmp[FCAP];
	int n;

	sched_point("vfprintf");
#ifdef REAL
	if (sink_of(f) == W_FILE)
		return vfprintf(real(f, "vfprintf"), fmt, va);
#else
	if (sink_of(f) == W_FILE)
		handle_of(f, "vfprintf");
#endif
	if (fails("vfprintf", sink_of(f), ENOSPC))
		return -1;
	n = vsnprintf(tmp, sizeof(tmp), fmt, va);
	put(f, tmp, (size_t) n, "vfprintf");
	return n;
}
int mc_fprintf(FILE *f, const char *fmt, ...)
{
	va_list va;
	int rc;

	va_start(va, fmt);
	rc = mc_vfprintf(f, fmt, va);
	va_end(va);
	return rc;
}
int mc_printf(const char *fmt, ...)
{
	va_list va;
	int rc;

	va_start(va, fmt);
	rc = mc_vfprintf(stdout, fmt, va);
	va_end(va);
	return rc;
}
int mc_vprintf(const char *fmt, va_list va)
{
	return mc_vfprintf(stdout, fmt, va);
}
int mc_fputs(const char *s, FILE *f)
{
	return mc_fprintf(f, "%s", s) < 0 ? EOF : 1;
}
int mc_fputc(int c, FILE *f)
{
	return mc_fprintf(f, "%c", c) < 0 ? EOF : c;
}
int mc_puts(const char *s)
{
	return mc_fprintf(stdout, "%s\n", s) < 0 ? EOF : 1;
}
size_t mc_fwrite(const void *p, size_t a, size_t n, FILE *f)
{
	sched_point("fwrite");
#ifdef REAL
	if (sink_of(f) == W_FILE)
		return fwrite(p, a, n, real(f, "fwrite"));
#endif
	if (fails("fwrite", sink_of(f), ENOSPC))
		return 0;
	put(f, p, a * n, "fwrite");
	return n;
}
#ifdef REAL
int mc_fflush(FILE *f)
{
	return f && sink_of(f) == W_FILE ? fflush(real(f, "fflush")) : 0;
}
long mc_ftell(FILE *f)
{
	return ftell(real(f, "ftell"));
}
int mc_fseek(FILE *f, long off, int how)
{
	return fseek(real(f, "fseek"), off, how);
}
int mc_rename(const char *from, const char *to)
{
	MC_CHECK(!access(from, F_OK), "rename", "rename of a file that does not exist: %s", from);
	return rename(from, to);
}
#else
int mc_fflush(FILE *f)
{
	sched_point("fflush");
	if (f && sink_of(f) == W_FILE)
		handle_of(f, "fflush");
	return 0;
}
long mc_ftell(FILE *f)
{
	struct handle *h = handle_of(f, "ftell");

	if (fails("ftell", W_TELL, EIO))
		return -1;
	return (long) h->pos;
}
int mc_fseek(FILE *f, long off, int how)
{
	struct handle *h = handle_of(f, "fseek");

	h->pos = how == SEEK_SET ? (size_t) off :
		 how == SEEK_END ? ino[h->inode].len + (size_t) off : h->pos + (size_t) off;
	return 0;
}
int mc_rename(const char *from, const char *to)
{
	int i, j;

	sched_point("rename");
	if (fails("rename", W_ROT, EACCES))
		return -1;
	i = find(from);
	j = find(to);
	MC_CHECK(i >= 0, "rename", "rename of a file that does not exist: %s", from);
	if (i < 0 || i == j)
		return i < 0 ? -1 : 0;
	if (j >= 0)
		ino[j].name[0] = 0;
	snprintf(ino[i].name, sizeof(ino[i].name), "%s", to);
	return 0;
}
#endif
/* other names for the same, and calls without an effect here */
int mc_putc(int c, FILE *f)
{
	return mc_fputc(c, f);
}
int mc_putchar(int c)
{
	return mc_fputc(c, stdout);
}
off_t mc_ftello64(FILE *f)
{
	return mc_ftell(f);
}
int mc_fseeko64(FILE *f, off_t off, int how)
{
	return mc_fseek(f, (long) off, how);
}
off_t mc_ftello(FILE *f)
{
	return mc_ftell(f);
}
int mc_fseeko(FILE *f, off_t off, int how)
{
	return mc_fseek(f, (long) off, how);
}
void mc_rewind(FILE *f)
{
	mc_fseek(f, 0, SEEK_SET);
}
static int no_effect(FILE *f, const char *what)
{
#ifdef REAL
	(void) (sink_of(f) == W_FILE ? real(f, what) : f);
#else
	if (sink_of(f) == W_FILE)
		handle_of(f, what);
#endif
	return 0;
}
int mc_setvbuf(FILE *f, char *buf, int mode, size_t n)
{
	return no_effect(f, "setvbuf");
}
void mc_setbuf(FILE *f, char *buf)
{
	no_effect(f, "setbuf");
}
int mc_ferror(FILE *f)
{
	return no_effect(f, "ferror");
}
int mc_feof(FILE *f)
{
	return no_effect(f, "feof");
}
void mc_clearerr(FILE *f)
{
	no_effect(f, "clearerr");
}
void mc_flockfile(FILE *f)
{
	no_effect(f, "flockfile");
}
void mc_funlockfile(FILE *f)
{
	no_effect(f, "funlockfile");
}
FILE *mc_freopen(const char *name, const char *mode, FILE *f)
{
	mc_fclose(f);
	return mc_fopen(name, mode);
}
static time_t clock_now = 1614834367;
time_t mc_time(time_t *t)
{
	if (t)
		*t = clock_now;
	return clock_now;
}
int mc_clock_gettime(clockid_t c, struct timespec *t)
{
	if (c != CLOCK_REALTIME)
		mc_fail("clock", "clock %d", (int) c);
	t->tv_sec = clock_now;
	t->tv_nsec = 999999999;
	return 0;
}
int mc_gettimeofday(struct timeval *t, void *zone)
{
	(void) zone;
	t->tv_sec = clock_now;
	t->tv_usec = 999999;
	return 0;
}
struct tm *mc_localtime_r(const time_t *t, struct tm *r)
{
	if (fails("localtime_r", W_TIME, EOVERFLOW))
		return NULL;
	return gmtime_r(t, r);
}

static int open_handles(void)
{
	int n = 0;
#ifdef REAL
	return nhnd;
#endif
	for (int i = 0; i < nhnd; i++)
		n += hnd[i].open;
	return n;
}
static void env_reset(void)
{
#ifdef REAL
	for (int i = 0; i < NHANDLE; i++)
		if (files[i])
			fclose(files[i]);
	memset(files, 0, sizeof(files));
	DIR *d = opendir(".");
	struct dirent *e;
	while (d && (e = readdir(d)))
		if (e->d_type == DT_REG)
			unlink(e->d_name);
	if (d)
		closedir(d);
#endif
	nino = nhnd = 0;
	term[0].len = term[1].len = 0;
	term[0].data[0] = term[1].data[0] = 0;
	fault_hit = faulty = false;
	where_sink = W_NONE;
	sched_reset();
	sched_globals(0);
}

static const char *lname[] = {"DEBUG", "INFO", "WARN", "ERROR", "OFF"};
static void line_of(char *buf, size_t n, int level, const char *name, int id)
{
	char when[40];
	struct tm tm;

	gmtime_r(&clock_now, &tm);
	strftime(when, sizeof(when), "%Y-%m-%d %H:%M:%S", &tm);
	snprintf(buf, n, "[%s][%-5s][%.31s] m%d-%s\n", when, lname[level], name, id, "xy");
}

#ifdef CONC
/* ---- concurrent calls --------------------------------------------------------- */
enum { LOGD, LOGI, LOGE, LVDEBUG, LVERROR, LVOFF, OUT0, OUT1, FILE1, FILE0, CB1, CB0, NAME, NKIND };
static const char *kname[] = {"debug", "info", "error", "level=DEBUG", "level=ERROR", "level=OFF",
			      "stdout=off", "stdout=on", "file=new", "file=off", "cb=new", "cb=off", "name"};
#define MAXOPS 6
struct op {
	int kind, thread, id;
	uint64_t inv, res;
	char line[160], text[40];
	int sinks; /* bit 0: terminal, 1: file, 2: callback */
	int fgen, cgen;
	uint64_t cbat;
	int rc;
	int order[3];
};
static struct op ops[MAXOPS];
static int nops, nthreads, config;
static int in_cb;
static int seq;

static int logcb(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	char tmp[100];
	int gen = (int) (intptr_t) arg - 100;

	vsnprintf(tmp, sizeof(tmp), fmt, va);
	MC_CHECK(in_cb++ == 0, "cb-overlap", "the log callback runs twice at a time");
	sched_point("callback");
	in_cb--;
	for (int i = 0; i < nops; i++)
		if (ops[i].kind <= LOGE && !strcmp(tmp, ops[i].text)) {
			int lv = ops[i].kind == LOGD ? 0 : ops[i].kind == LOGI ? 1 : 3;
			MC_CHECK(ops[i].thread == sched_self() && (int) level == lv, "cb-level",
				 "callback with wrong level or thread");
			MC_CHECK(!(ops[i].sinks & 4), "cb-twice", "callback called twice for a call");
			ops[i].sinks |= 4;
			ops[i].cgen = gen;
			ops[i].cbat = sched_clock() * 2 + 1;
			ops[i].order[2] = ++seq;
			return 0;
		}
	mc_fail("cb-text", "callback with text '%s'", tmp);
	return 0;
}
static int logcb2(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	MC_CHECK((intptr_t) arg - 100 >= 50, "cb-arg", "callback with the argument of another one");
	return logcb((void *) ((intptr_t) arg - 50), level, fmt, va);
}

static void body(void *arg)
{
	int t = (int) (intptr_t) arg;
	char name[32] = "Thread";
	char cur[40], prev[40];

	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		int lv = o->kind == LOGD ? 0 : o->kind == LOGI ? 1 : 3;

		if (o->thread != t)
			continue;
		if (o->kind <= LOGE) {
			line_of(o->line, sizeof(o->line), lv, name, i);
			snprintf(o->text, sizeof(o->text), "m%d-xy\n", i);
		}
		o->inv = sched_clock() * 2 + 1;
		switch (o->kind) {
		case LOGD:
			o->rc = sc_log_debug("m%d-%s\n", i, "xy");
			break;
		case LOGI:
			o->rc = sc_log_info("m%d-%s\n", i, "xy");
			break;
		case LOGE:
			o->rc = sc_log_error("m%d-%s\n", i, "xy");
			break;
		case LVDEBUG:
			o->rc = sc_log_set_level("DEBUG");
			break;
		case LVERROR:
			o->rc = sc_log_set_level("error");
			break;
		case LVOFF:
			o->rc = sc_log_set_level("Off");
			break;
		case OUT0:
		case OUT1:
			sc_log_set_stdout(o->kind == OUT1);
			break;
		case FILE1:
			snprintf(cur, sizeof(cur), "cur%d", i);
			snprintf(prev, sizeof(prev), "prev%d", i);
			o->rc = sc_log_set_file(prev, cur);
			break;
		case FILE0:
			o->rc = sc_log_set_file(NULL, NULL);
			break;
		case CB1:
			sc_log_set_callback((void *) (intptr_t) (150 + i), logcb2);
			break;
		case CB0:
			sc_log_set_callback(NULL, NULL);
			break;
		default:
			snprintf(name, sizeof(name), "worker-%d", i);
			sc_log_set_thread_name(name);
			memset(name, 0, sizeof(name)); /* the library keeps a copy */
			snprintf(name, sizeof(name), "worker-%d", i);
		}
		o->res = sched_clock() * 2 + 2;
		MC_CHECK(o->rc == 0, "rc", "%s returns %d", kname[o->kind], o->rc);
	}
}

/* every sink contains whole lines, each at most once */
static void parse(const char *what, const char *s, int sink, int fgen)
{
	while (*s) {
		int i;

		if (*s == '\n' && sink == 1) {
			s++;
			continue;
		}
		for (i = 0; i < nops; i++)
			if (ops[i].kind <= LOGE && !strncmp(s, ops[i].line, strlen(ops[i].line)))
				break;
		if (i == nops) {
			mc_fail("torn", "%s contains something that is no whole line: '%.80s'", what, s);
			return;
		}
		MC_CHECK(!(ops[i].sinks >> sink & 1), "twice", "line %d is in %s twice", i, what);
		ops[i].sinks |= 1 << sink;
		if (sink == 1)
			ops[i].fgen = fgen;
		s += strlen(ops[i].line);
		ops[i].order[sink] = ++seq;
	}
}

/* one order of the calls must explain the level decisions ... */
static bool lin_level(unsigned done, int level)
{
	uint64_t minres = UINT64_MAX;

	for (int i = 0; i < nops; i++)
		if (!(done >> i & 1) && ops[i].res < minres)
			minres = ops[i].res;
	if (minres == UINT64_MAX)
		return true;
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		int nl = level;
		if ((done >> i & 1) || o->inv > minres)
			continue;
		if (o->kind == LVDEBUG)
			nl = 0;
		else if (o->kind == LVERROR)
			nl = 3;
		else if (o->kind == LVOFF)
			nl = 4;
		else if (o->kind <= LOGE) {
			int lv = o->kind == LOGD ? 0 : o->kind == LOGI ? 1 : 3;
			if (o->sinks && lv < level)
				continue;
			if (!o->sinks && lv >= level && config == 0) /* some sink is always on */
				continue;
		}
		if (lin_level(done | 1u << i, nl))
			return true;
	}
	return false;
}
/* ... and one order the sinks of the calls that passed the level */
static bool lin_sinks(unsigned done, bool out, int f, int c)
{
	uint64_t minres = UINT64_MAX;

	for (int i = 0; i < nops; i++)
		if (!(done >> i & 1) && ops[i].res < minres)
			minres = ops[i].res;
	if (minres == UINT64_MAX)
		return true;
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		bool no = out;
		int nf = f, nc = c;
		if ((done >> i & 1) || o->inv > minres)
			continue;
		if (o->kind == OUT0 || o->kind == OUT1)
			no = o->kind == OUT1;
		else if (o->kind == FILE1)
			nf = i;
		else if (o->kind == FILE0)
			nf = -1;
		else if (o->kind == CB1)
			nc = i;
		else if (o->kind == CB0)
			nc = -1;
		else if (o->kind <= LOGE && o->sinks) {
			if (!!(o->sinks & 1) != out || !!(o->sinks & 2) != (f >= 0) ||
			    !!(o->sinks & 4) != (c >= 0))
				continue;
			if ((f >= 0 && o->fgen != f) || (c >= 0 && o->cgen != c))
				continue;
		}
		if (lin_sinks(done | 1u << i, no, nf, nc))
			return true;
	}
	return false;
}

#define INITGEN 40
static void conc_run(void)
{
	int left, fopens = 0;

	env_reset();
	seq = in_cb = 0;
	MC_CHECK(sc_log_init() == 0, "init", "sc_log_init() fails");
	if (config == 1)
		sc_log_set_stdout(false);
	MC_CHECK(sc_log_set_file("prev", "cur") == 0, "file", "sc_log_set_file() fails");
	sc_log_set_callback((void *) (intptr_t) (100 + INITGEN), logcb);
	for (int i = 0; i < nops; i++) {
		ops[i].sinks = 0;
		ops[i].rc = 0;
		ops[i].inv = ops[i].res = 0;
		memset(ops[i].order, 0, sizeof(ops[i].order));
	}
	for (int t = 0; t < nthreads; t++)
		sched_spawn(body, (void *) (intptr_t) t);
	left = sched_run();
	MC_CHECK(!left, "deadlock", "%d threads never return", left);
	for (int k = 0; k < 2; k++)
		parse(termnames[k], term[k].data, 0, 0);
	for (int k = 0; k < nino; k++) {
		const char *d = strpbrk(ino[k].name, "0123456789");
		int gen = ino[k].name[0] ? (d ? atoi(d) : INITGEN) : -2;
		if (gen == -2) /* was renamed over: any generation, found by its number at creation */
			gen = INITGEN;
		parse(ino[k].name, ino[k].data, 1, gen);
	}
	for (int i = 0; i < nops; i++) {
		struct op *o = &ops[i];
		if (o->kind <= LOGE && o->sinks & 1) {
			bool err = strstr(term[1].data, o->line) != NULL;
			MC_CHECK(err == (o->kind == LOGE), "stderr", "line on the wrong terminal stream");
		}
	}
	if (mc_replaying)
		for (int i = 0; i < nops; i++)
			mc_note("thread %d: %s [%lu,%lu] sinks %d file %d cb %d", ops[i].thread, kname[ops[i].kind],
				(unsigned long) ops[i].inv, (unsigned long) ops[i].res, ops[i].sinks,
				ops[i].fgen, ops[i].cgen);
	MC_CHECK(lin_level(0, 1), "level", "no order of the calls explains which lines were filtered");
	MC_CHECK(lin_sinks(0, config != 1, INITGEN, INITGEN), "sinks",
		 "no order of the calls explains where the lines went");
	/* program and real time order in every sink */
	for (int i = 0; i < nops; i++)
		for (int j = 0; j < nops; j++)
			for (int s = 0; s < 3; s++)
				if (ops[i].kind <= LOGE && ops[j].kind <= LOGE && ops[i].res < ops[j].inv &&
				    (ops[i].sinks & ops[j].sinks) >> s & 1 &&
				    (s != 0 || (ops[i].kind == LOGE) == (ops[j].kind == LOGE)) &&
				    (s != 1 || nino == 1))
					MC_CHECK(ops[i].order[s] < ops[j].order[s], "order",
						 "line %d is after line %d", i, j);
	/* a replaced callback is not called any more */
	for (int i = 0; i < nops; i++)
		for (int k = 0; k < nops; k++)
			if (ops[i].kind <= LOGE && ops[i].sinks & 4 && (ops[k].kind == CB1 || ops[k].kind == CB0) &&
			    k != ops[i].cgen && ops[k].res < ops[i].cbat &&
			    (ops[i].cgen == INITGEN || ops[ops[i].cgen].res < ops[k].inv))
				mc_fail("cb-stale", "a callback is called after it was replaced");
	for (int k = 0; k < nhnd; k++)
		fopens += hnd[k].open;
	MC_CHECK(fopens <= 1, "handles", "%d log files are open", fopens);
	MC_CHECK(sc_log_term() == 0, "term", "sc_log_term() fails");
	MC_CHECK(!open_handles() && !sched_live_mutexes() && !sched_live_attrs(), "leak",
		 "files or mutexes stay open after sc_log_term()");
	mc_evals++;
	uint64_t out[1 + MAXOPS * 2] = {(uint64_t) nops};
	for (int i = 0; i < nops; i++) {
		out[1 + 2 * i] = (uint64_t) (ops[i].kind * 1000 + ops[i].thread * 100 + ops[i].sinks);
		out[2 + 2 * i] = (uint64_t) (ops[i].order[0] + ops[i].order[1] * 100);
	}
	if (mc_distinct_add(out, sizeof(out)))
		mc_sample("%d threads: %s, %s, ... files %d", nthreads, kname[ops[0].kind],
			  kname[ops[nops - 1].kind], nino);
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	sched_globals(1);
	/* 2 threads x 2 calls */
	for (int a = 0; a < NKIND; a++)
		for (int b = 0; b < NKIND; b++)
			for (int c = 0; c < NKIND; c++)
				for (int d = -1; d < NKIND; d++) {
					int logs = (a <= LOGE) + (b <= LOGE) + (c <= LOGE) + (d >= 0 && d <= LOGE);
					if (!logs || (d >= 0 && a * NKIND + b > c * NKIND + d))
						continue;
					if (!mc_mine("%s,%s | %s,%s", kname[a], kname[b], kname[c], d < 0 ? "-" : kname[d]))
						continue;
					nthreads = 2;
					ops[0] = (struct op){.kind = a};
					ops[1] = (struct op){.kind = b};
					ops[2] = (struct op){.kind = c, .thread = 1};
					ops[3] = (struct op){.kind = d, .thread = 1};
					nops = d < 0 ? 3 : 4;
					config = 1;
					for (int i = 0; i < nops; i++)
						if (ops[i].kind == OUT0 || ops[i].kind == OUT1)
							config = 2; /* level check needs a sink that is always on */
					for (int i = 0, sw = 0; i < nops; i++) {
						sw |= ops[i].kind == FILE0 || ops[i].kind == CB0;
						if (!sw && i == nops - 1)
							config = 0;
					}
					mc_dfs(conc_run, mc_thorough ? 5 : 3, 200000);
				}
	/* 3 threads x 1 call, and 3 threads logging twice */
	for (int a = 0; a < NKIND; a++)
		for (int b = a; b < NKIND; b++)
			for (int c = b; c < NKIND; c++) {
				if (a > LOGE || !mc_mine("%s | %s | %s", kname[a], kname[b], kname[c]))
					continue;
				nthreads = 3;
				ops[0] = (struct op){.kind = a};
				ops[1] = (struct op){.kind = b, .thread = 1};
				ops[2] = (struct op){.kind = c, .thread = 2};
				nops = 3;
				config = 2;
				mc_dfs(conc_run, mc_thorough ? 5 : 3, 400000);
			}
	for (int th = 2; th <= 3; th++)
		for (int per = 2; per <= (th == 2 ? 3 : 2); per++)
			if (mc_mine("%d threads logging %d times", th, per)) {
				nthreads = th;
				nops = 0;
				for (int t = 0; t < th; t++)
					for (int i = 0; i < per; i++)
						ops[nops++] = (struct op){.kind = LOGI + (t + i) % 2, .thread = t};
				config = 0;
				mc_dfs(conc_run, mc_thorough ? 5 : 3, 1000000);
			}
	return mc_done();
}
#elif defined(LOGBIG)
/* ---- long lines and the real rotation limit -------------------------------------- */
static char *arg, *want, *line;
static size_t nwant;
static size_t len1, len2;
static int cb_calls;
static bool cb_ok;
static char hdr[80];

static int logcb(void *p, enum sc_log_level level, const char *fmt, va_list va)
{
	static char got[FCAP];

	cb_calls++;
	cb_ok = p == &len1 && level == SC_LOG_WARN && vsnprintf(got, sizeof(got), fmt, va) > 0 &&
		!strcmp(got, line + strlen(hdr));
	return 0;
}

static void big_run(void)
{
	size_t total = 0;
	int rot = 0, n, lines = 0;
	bool old = mc_choose(2);

	env_reset();
	MC_CHECK(sc_log_init() == 0, "init", "sc_log_init() fails");
	sc_log_set_callback(&len1, logcb);
	/* an older file may have any length */
	nwant = 0;
	if (old) {
		FILE *f = mc_fopen("cur", "w+");
		memset(want, 'o', SC_LOG_FILE_SIZE);
		nwant = SC_LOG_FILE_SIZE - len1 / 2;
		put(f, want, nwant, "harness");
		mc_fclose(f);
	}
	MC_CHECK(sc_log_set_file("prev", "cur") == 0, "file", "sc_log_set_file() fails");
	want[nwant++] = '\n';
	while (rot < 2 && lines < 50000) {
		size_t len = lines % 2 ? len2 : len1, ll;
		char keep = arg[len];
		int i, rc;

		arg[len] = 0;
		snprintf(hdr, sizeof(hdr), "[2021-03-04 05:06:07][WARN ][Thread] ");
		n = sprintf(line, "%s%d %s %c\n", hdr, lines, arg, 'e');
		ll = (size_t) n;
		term[0].len = 0;
		cb_calls = 0;
		rc = sc_log_warn("%d %s %c\n", lines, arg, 'e');
		arg[len] = keep;
		lines++;
		total += ll;
		memcpy(want + nwant, line, ll);
		nwant += ll;
		MC_CHECK(rc == 0, "log-rc", "log call returns %d", rc);
		MC_CHECK(term[0].len == ll && !memcmp(term[0].data, line, ll), "terminal", "line %d of %zu bytes is %zu bytes on stdout",
			 lines, ll, term[0].len);
		MC_CHECK(cb_calls == 1 && cb_ok, "callback", "callback called %d times, text %s", cb_calls, cb_ok ? "right" : "wrong");
		i = find("cur");
		MC_CHECK(i >= 0, "file", "no current file");
		if (i < 0)
			break;
		if (nwant > SC_LOG_FILE_SIZE) {
			int j = find("prev");
			MC_CHECK(ino[i].len == 0, "rotate", "%zu bytes in the current file after rotation", ino[i].len);
			MC_CHECK(j >= 0 && ino[j].len == nwant && !memcmp(ino[j].data, want, nwant), "rotate",
				 "the previous file is not the file of %zu bytes that reached the limit", nwant);
			nwant = 0;
			rot++;
		} else if (nwant < SC_LOG_FILE_SIZE || ino[i].len) {
			MC_CHECK(ino[i].len == nwant && !memcmp(ino[i].data + nwant - ll, line, ll), "file",
				 "the current file has %zu bytes instead of %zu, or another last line", ino[i].len, nwant);
			/* a switch to the same file changes nothing */
			if (lines == 3) {
				MC_CHECK(sc_log_set_file("prev", "cur") == 0, "file", "sc_log_set_file() fails");
				want[nwant++] = '\n';
			}
		} else {
			nwant = 0;
			rot++;
		}
	}
	MC_CHECK(sc_log_term() == 0 && !open_handles(), "term", "sc_log_term() fails or leaks");
	mc_evals++;
	mc_distinct_add(&total, sizeof(total));
}

int main(int argc, char **argv)
{
	static const size_t lens[] = {0, 60, 215, 216, 217, 218, 219, 250, 475, 990, 1022, 1023, 1024, 1025, 2047, 4000, 4058, 4095, 4096, 8192,
				      9999, 32767, 32768, 65535, 65536, 70001, 300000, 1048576, 2097100, 2097152, 2500000};
	const int n = sizeof(lens) / sizeof(lens[0]);

	mc_init(argc, argv);
	sched_races = false;
	sched_globals(1);
	arg = malloc(FCAP);
	want = malloc(2 * FCAP);
	line = malloc(FCAP);
	for (int i = 0; i < FCAP; i++)
		arg[i] = (char) ('a' + i % 23 + i / 1000 % 3);
	for (int a = 0; a < n; a++)
		for (int b = 0; b < n; b++) {
			/* every length alone, and with the others in turn where that takes few lines */
			if (a != b && lens[a] + lens[b] < (mc_thorough ? 5000 : 60000))
				continue;
			if (!mc_mine("lines of %zu and %zu bytes", lens[a], lens[b]))
				continue;
			len1 = lens[a];
			len2 = lens[b];
			mc_dfs(big_run, 0, 1000000);
		}
	return mc_done();
}
#else
/* ---- histories with failing calls ------------------------------------------------ */
static char longname[3][300];
static const char *cb_text;
static int cb_calls, cb_rc, cb_level;
static void *cb_arg;
static char cb_buf[200];

static int logcb(void *arg, enum sc_log_level level, const char *fmt, va_list va)
{
	vsnprintf(cb_buf, sizeof(cb_buf), fmt, va);
	cb_calls++;
	cb_arg = arg;
	cb_level = level;
	return cb_rc;
}

/* reference */
static struct {
	bool init, out, cb, cbfail, fileon, fuzzy;
	int level;
	char name[64];
	char cur[300], prev[300];
} R;

enum {
	LOG0, LOG3 = LOG0 + 3, LEVEL0, LEVELN = LEVEL0 + 6, OUT0, OUT1, FILEA, FILEB, FILE0, FILE1, FILELP, FILELC,
	FILEFIT, CBON, CBFAIL, CBOFF, NAMES, NAMEL, REINIT,
#ifdef REAL
	FILEDIR, FILENONE,
#endif
	NOPS
};
static const char *levels[] = {"debug", "INFO", "wArn", "ERROR", "off", "", "ERRORS"};

static char *content(const char *name)
{
#ifdef REAL
	static char buf[4][FCAP];
	static int k;
	FILE *f;
	size_t n;

	for (int i = 0; i < NHANDLE; i++)
		if (files[i])
			fflush(files[i]);
	f = fopen(name, "r");
	if (!f)
		return NULL;
	k = (k + 1) % 4;
	n = fread(buf[k], 1, FCAP - 1, f);
	buf[k][n] = 0;
	fclose(f);
	return buf[k];
#endif
	int i = find(name);
	return i < 0 ? NULL : ino[i].data;
}

static bool ends(const char *s, const char *e)
{
	size_t a = strlen(s), b = strlen(e);
	return a >= b && !strcmp(s + a - b, e);
}

static int msgno;
static void do_log(int level)
{
	char line[200], text[60], before[FCAP], tb[2][FCAP], prevb[FCAP];
	/* also the same second twice, and the same time of another day */
	static const time_t times[] = {1614834367, 1614834367, 1614834368, 1614834367 + 86400, 946684799, 253402300799, 0};
	bool pass = level >= R.level, had = false, hadprev = false;
	int rc, at = 0, id = msgno++;
	char *now;

	for (int k = 0; k < 2; k++)
		strcpy(tb[k], term[k].data);
	before[0] = prevb[0] = 0;
	if (R.fileon) {
		now = content(R.cur);
		had = now != NULL;
		strcpy(before, had ? now : "");
		now = content(R.prev);
		hadprev = now != NULL;
		strcpy(prevb, hadprev ? now : "");
	}
	cb_calls = 0;
	where_sink = W_NONE;
	clock_now = times[(id - 10) % 7];
	switch (level) {
	case 0:
		at = __LINE__, rc = sc_log_debug("m%d-%s\n", id, "xy");
		break;
	case 1:
		at = __LINE__, rc = sc_log_info("m%d-%s\n", id, "xy");
		break;
	case 2:
		at = __LINE__, rc = sc_log_warn("m%d-%s\n", id, "xy");
		break;
	default:
		at = __LINE__, rc = sc_log_error("m%d-%s\n", id, "xy");
	}
	snprintf(text, sizeof(text), "m%d-xy\n", id);
	line_of(line, sizeof(line), level, R.name, id);
#ifdef SC_LOG_PRINT_FILE_NAME
	char pre[40], *msg = line + strlen(line) - strlen(text);

	snprintf(pre, sizeof(pre), "(log.c:%d) ", at);
	memmove(msg + strlen(pre), msg, strlen(msg) + 1);
	memcpy(msg, pre, strlen(pre));
	memmove(text, msg, strlen(msg) + 1);
#else
	(void) at;
#endif
	if (!pass) {
		MC_CHECK(rc == 0, "filtered-rc", "a filtered call returns %d", rc);
		MC_CHECK(!cb_calls && !strcmp(tb[0], term[0].data) && !strcmp(tb[1], term[1].data), "filtered",
			 "a line below the level is logged");
		MC_CHECK(!R.fileon || R.fuzzy || !strcmp(before, content(R.cur)), "filtered", "a line below the level is in the file");
		return;
	}
	/* the result tells of failures (a failing rename or close while rotating may be ignored) */
	if (!fault_hit && !(R.cb && R.cbfail))
		MC_CHECK(rc == 0, "log-rc", "log call returns %d", rc);
	else if ((R.cb && R.cbfail) || (where_sink & ~(W_ROT | W_TELL)))
		MC_CHECK(rc < 0, "log-rc", "log call returns %d although %s failed", rc,
			 fault_hit ? fault_where : "the callback");
	/* terminal */
	for (int k = 0; k < 2; k++) {
		char want[FCAP];
		bool mine = R.out && k == (level == 3);
		snprintf(want, sizeof(want), "%s%s", tb[k], mine ? line : "");
		if (mine && fault_hit && (where_sink & (W_STDOUT | W_TIME)))
			MC_CHECK(!strncmp(want, term[k].data, strlen(term[k].data)), "terminal",
				 "unexpected text on %s", termnames[k]);
		else
			MC_CHECK(!strcmp(want, term[k].data), "terminal", "%s is '%s', expected '%s'",
				 termnames[k], term[k].data + strlen(tb[k]), want + strlen(tb[k]));
	}
	/* callback */
	MC_CHECK(cb_calls == R.cb, "callback", "callback called %d times", cb_calls);
	if (R.cb)
		MC_CHECK(!strcmp(cb_buf, text) && cb_arg == &R && cb_level == level, "callback",
			 "callback with '%s', level %d", cb_buf, cb_level);
	/* file */
	if (!R.fileon)
		return;
	if (fault_hit && (where_sink & ~W_STDOUT)) {
		R.fuzzy = true;
		return;
	}
	if (R.fuzzy)
		return;
	char want[FCAP];
	snprintf(want, sizeof(want), "%s%s", before, line);
	now = content(R.cur);
	MC_CHECK(now != NULL, "file", "the current log file does not exist");
	if (!now)
		return;
	if (strlen(want) > LOGLIMIT) {
		char *p = content(R.prev);
		MC_CHECK(p && !strcmp(p, want), "rotate", "the file reached %zu bytes (limit %d) but was not moved to the "
			 "previous file", strlen(want), LOGLIMIT);
		MC_CHECK(!*now, "rotate", "the new current file is not empty");
	} else if (strlen(want) < LOGLIMIT || strcmp(now, "")) {
		char *p = content(R.prev);
		MC_CHECK(!strcmp(now, want), "file", "the current file is '%s', expected '%s'", now, want);
		MC_CHECK(!!p == hadprev && (!p || !strcmp(p, prevb)), "rotate-early", "the previous file changed");
	}
}

static void do_file(const char *prev, const char *cur)
{
	char before[FCAP] = "";
	bool valid = prev && cur, fits = valid && strlen(prev) < 255 && strlen(cur) < 255;
	int rc, e;

	if (valid && content(cur))
		strcpy(before, content(cur));
	errno = 4242;
	where_sink = W_NONE;
	rc = sc_log_set_file(prev, cur);
	e = errno;
	R.fileon = false;
	R.fuzzy = false;
	if (!valid) {
		MC_CHECK(rc == 0, "file-off", "disabling the file returns %d", rc);
	} else if (!fits) {
		MC_CHECK(rc == -1 && e != 0 && e != 4242, "file-long", "too long name: result %d, errno %d", rc, e);
	} else if (fault_hit && (where_sink & ~W_ROT)) {
		MC_CHECK(rc == -1 && e == fault_errno, "file-fail", "%s fails: result %d, errno %d", fault_where, rc, e);
	} else {
		char want[FCAP];
		MC_CHECK(rc == 0, "file-rc", "sc_log_set_file() returns %d", rc);
		snprintf(want, sizeof(want), "%s\n", before);
		MC_CHECK(content(cur) && !strcmp(content(cur), want), "file-open",
			 "the file is '%s' instead of '%s'", content(cur), want);
		R.fileon = true;
		snprintf(R.cur, sizeof(R.cur), "%s", cur);
		snprintf(R.prev, sizeof(R.prev), "%s", prev);
	}
	if (!R.fileon)
		MC_CHECK(open_handles() == 0, "file-leak", "a file is open although file logging is off");
}

static bool do_init(void)
{
	int rc, e;

	if (fault_on && !faulty) {
		int k = mc_choose_dev(3);
		sched_fail_at = k ? sched_calls + k : 0;
		sched_fail_errno = ENOMEM;
	}
	sched_failed = false;
	errno = 0;
	rc = sc_log_init();
	e = errno;
	if (sched_failed) {
		faulty = true;
		MC_CHECK(rc < 0, "init-rc", "sc_log_init() returns %d on failure, not a negative number", rc);
		MC_CHECK(e == ENOMEM, "init-errno", "errno %d after a failed sc_log_init()", e);
		MC_CHECK(sc_log_term() == -1, "init-term", "sc_log_term() after a failed sc_log_init()");
		MC_CHECK(!sched_live_mutexes() && !sched_live_attrs(), "init-leak", "objects stay alive");
		sched_fail_at = 0;
		MC_CHECK(sc_log_init() == 0, "init-again", "second sc_log_init() fails");
	} else {
		MC_CHECK(rc == 0, "init", "sc_log_init() returns %d", rc);
	}
	sched_fail_at = 0;
	R.init = R.out = true;
	R.cb = R.fileon = R.fuzzy = false;
	R.level = 1;
	return true;
}
static void do_term(void)
{
	int rc;

	where_sink = W_NONE;
	rc = sc_log_term();
	MC_CHECK(rc == (fault_hit ? -1 : 0), "term", "sc_log_term() returns %d", rc);
	MC_CHECK(!open_handles() && !sched_live_mutexes() && !sched_live_attrs(), "term-leak",
		 "files or mutexes stay open after sc_log_term()");
	MC_CHECK(sc_log_term() == -1, "term-twice", "second sc_log_term() succeeds");
	R.init = false;
}

static int depth, first, second;
static const int *subset;
static int nsubset;
static void seq_run(void)
{
	int hist[8];

	env_reset();
	msgno = 10;
	cb_rc = 0;
	memset(&R, 0, sizeof(R));
	/* the thread name survives sc_log_term() */
	static char last[64] = "Thread";
	sc_log_set_thread_name("Thread");
	strcpy(last, "Thread");
	strcpy(R.name, "Thread");
	do_init();
	for (int i = 0; i < depth; i++) {
		int op = i == 0 ? first : i == 1 && second >= 0 ? second :
			 subset ? subset[mc_choose(nsubset)] : mc_choose(NOPS);
		hist[i] = op;
		fault_hit = false;
		mc_note("op %d", op);
		if (op <= LOG3) {
			do_log(op);
		} else if (op <= LEVELN) {
			int rc = sc_log_set_level(levels[op - LEVEL0]);
			if (op - LEVEL0 < 5)
				R.level = op - LEVEL0;
			MC_CHECK(op - LEVEL0 < 5 ? rc == 0 : rc < 0, "level", "sc_log_set_level(%s) returns %d",
				 levels[op - LEVEL0], rc);
		} else if (op == OUT0 || op == OUT1) {
			R.out = op == OUT1;
			sc_log_set_stdout(R.out);
		} else if (op == FILEA) {
			do_file("pa", "ca");
		} else if (op == FILEB) {
			do_file("pb", "cb");
		} else if (op == FILE0) {
			do_file(NULL, "ca");
		} else if (op == FILE1) {
			do_file("pa", NULL);
		} else if (op == FILELP) {
			do_file(longname[0], "ca");
		} else if (op == FILELC) {
			do_file("pa", longname[1]);
		} else if (op == FILEFIT) {
			do_file(longname[2], "ca");
#ifdef REAL
		} else if (op == FILEDIR) {
			do_file("pa", ".");
		} else if (op == FILENONE) {
			do_file("pa", "nodir/ca");
#endif
		} else if (op == CBON || op == CBFAIL) {
			sc_log_set_callback(&R, logcb);
			R.cb = true;
			R.cbfail = op == CBFAIL;
			cb_rc = R.cbfail ? -1 : 0;
		} else if (op == CBOFF) {
			sc_log_set_callback(NULL, NULL);
			R.cb = false;
		} else if (op == NAMES) {
			sc_log_set_thread_name("w");
			strcpy(R.name, "w");
		} else if (op == NAMEL) {
			sc_log_set_thread_name("0123456789012345678901234567890123456789");
			strcpy(R.name, "0123456789012345678901234567890123456789");
		} else {
			do_term();
			fault_hit = false;
			do_init();
		}
		MC_CHECK(open_handles() <= 1, "handles", "%d log files are open", open_handles());
	}
	fault_hit = false;
	do_term();
	mc_evals++;
	mc_distinct_add(hist, sizeof(int) * (size_t) depth);
	if (mc_evals % 50000 == 1)
		mc_sample("calls %d %d %d ..., %d files%s", hist[0], hist[1], hist[2], nino, faulty ? ", a call failing" : "");
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	memset(longname[0], 'p', 299);
	memset(longname[1], 'c', 255);
	memset(longname[2], 'f', 254);
	sched_races = false;
	sched_globals(1);
	for (first = 0; first < NOPS; first++)
		for (second = 0; second < NOPS; second++)
			for (int nf = 0; nf <= 2; nf++) {
				depth = (nf == 0 ? 4 : nf == 1 ? 4 : 3) + mc_thorough;
#ifdef REAL
				if (nf)
					break;
				depth = 3 + mc_thorough;
#endif
				fault_on = nf > 0;
				if (mc_mine("calls %d %d, %d failures", first, second, nf))
					mc_dfs(seq_run, nf, 100000000);
			}
	/* longer histories of fewer calls: several rotations and files */
	static const int sub[] = {LOG0 + 1, LOG3, FILEA, FILEB, FILE0, REINIT};
	subset = sub;
	nsubset = 6;
	for (int i = 0; i < 36; i++)
		for (int nf = 0; nf <= 1; nf++) {
			first = sub[i / 6];
			second = sub[i % 6];
			depth = 7 + mc_thorough;
#ifdef REAL
			if (nf)
				break;
			depth = 6 + mc_thorough;
#endif
			fault_on = nf > 0;
			if (mc_mine("files, calls %d %d, %d failures", first, second, nf))
				mc_dfs(seq_run, nf, 100000000);
		}
	return mc_done();
}
#endif
