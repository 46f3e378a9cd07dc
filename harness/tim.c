/* Clocks and sleeping: every way the sleep can be interrupted. */
#define _GNU_SOURCE
#include "mc.h"
#include "sc_time.h"
#include <errno.h>
#include <sys/time.h>
#include <time.h>

/* nanoseconds do not fit 64 bits for the largest requests */
typedef unsigned __int128 u128;
#define NS ((u128) 1000000000)

static struct timespec now[2];	/* realtime, monotonic */
static int clock_reads;
static u128 slept, asked;
static int interrupts, max_interrupts;
static bool in_sleep, failed;

/* the monotonic clock moves on while something sleeps */
static struct timespec virtual_now(void)
{
	u128 n = (u128) now[1].tv_sec * NS + (u128) now[1].tv_nsec + slept;

	return (struct timespec){(time_t) (n / NS), (long) (n % NS)};
}
int mc_clock_gettime(clockid_t id, struct timespec *ts)
{
	clock_reads++;
	if (id == CLOCK_REALTIME)
		*ts = now[0];
	else if (id == CLOCK_MONOTONIC)
		*ts = virtual_now();
	else {
		mc_fail("clock", "clock %d read", (int) id);
		return -1;
	}
	return 0;
}
int mc_gettimeofday(struct timeval *tv, void *tz)
{
	clock_reads++;
	tv->tv_sec = now[0].tv_sec;
	tv->tv_usec = now[0].tv_nsec / 1000;
	return 0;
}
static int sleeping(const struct timespec *t, struct timespec *rem)
{
	u128 want, did, left;
	struct timespec in = *t;

	MC_CHECK(in_sleep, "sleep", "sleeps in another call");
	if (in.tv_nsec < 0 || in.tv_nsec > 999999999 || in.tv_sec < 0) {
		mc_fail("range", "sleep of %lld s %ld ns", (long long) in.tv_sec, in.tv_nsec);
		return EINVAL;
	}
	want = (u128) in.tv_sec * NS + (u128) in.tv_nsec;
	left = asked > slept ? asked - slept : 0;
	MC_CHECK(want <= left, "too-long", "sleeps longer than asked for");
	switch (interrupts < max_interrupts ? mc_choose(7) : 0) {
	case 0:
		slept += want;
		return 0;
	case 1:
		did = 0;
		break;
	case 2:
		did = want > 1 ? 1 : 0;
		break;
	case 3:
		did = want / 2;
		break;
	case 4:
		did = want ? want - 1 : 0;
		break;
	case 5:
		did = want;
		break;
	default:
		failed = true;
		mc_note("fails\n");
		interrupts = max_interrupts;
		return EFAULT;
	}
	interrupts++;
	mc_note("interrupted after %llu ns\n", (unsigned long long) did);
	slept += did;
	if (rem) {
		rem->tv_sec = (time_t) ((want - did) / NS);
		rem->tv_nsec = (long) ((want - did) % NS);
	}
	return EINTR;
}
int mc_nanosleep(const struct timespec *t, struct timespec *rem)
{
	int e = sleeping(t, rem);

	if (!e)
		return 0; /* errno is untouched */
	errno = e;
	return -1;
}
int mc_clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem)
{
	struct timespec n = virtual_now(), left = *t;

	if (!(flags & TIMER_ABSTIME))
		return sleeping(t, rem);
	MC_CHECK(id == CLOCK_MONOTONIC, "absolute", "sleeps until a time of a clock that may be set");
	if (left.tv_nsec < 0 || left.tv_nsec > 999999999) {
		mc_fail("range", "sleep until %lld s %ld ns", (long long) left.tv_sec, left.tv_nsec);
		return EINVAL;
	}
	left.tv_sec -= n.tv_sec;
	left.tv_nsec -= n.tv_nsec;
	if (left.tv_nsec < 0) {
		left.tv_nsec += 1000000000;
		left.tv_sec--;
	}
	if (left.tv_sec < 0)
		return 0;
	return sleeping(&left, NULL);
}
int mc_usleep(unsigned us)
{
	struct timespec t = {us / 1000000, us % 1000000 * 1000L};

	return mc_nanosleep(&t, NULL);
}

static const uint64_t ms[] = {0, 1, 2, 3, 999, 1000, 1001, 1999, 2000, 60000, 86400000, 4294967, 4294968, 2147483647, 2147483648u,
			      4294967294u, 4294967295u, 4294967296u, 4294967297u, 1ull << 33, 999999999999ull, 1000000000000ull,
			      2147483648000ull, 2147483649000ull, 4294967296000ull, 4294967297001ull, 9223372036854775ull,
			      9223372036854776ull, 18446744073709551ull, 18446744073709552ull, INT64_MAX - 1, INT64_MAX,
			      (uint64_t) INT64_MAX + 1, (uint64_t) INT64_MAX + 2, UINT64_MAX - 1000, UINT64_MAX - 1, UINT64_MAX};
static uint64_t millis;

static void run(void)
{
	int rc;

	slept = 0;
	interrupts = 0;
	failed = false;
	asked = (u128) millis * 1000000;
	in_sleep = true;
	errno = EINTR; /* left over from an earlier call */
	rc = sc_time_sleep(millis);
	in_sleep = false;
	if (failed) {
		MC_CHECK(rc == -1, "rc", "sleep returns %d although the system call failed", rc);
	} else {
		MC_CHECK(rc == 0, "rc", "sleep returns %d", rc);
		MC_CHECK(slept >= asked, "short", "sleep(%llu) ends early, %llu ns missing", (unsigned long long) millis,
			 (unsigned long long) (asked - slept));
	}
	mc_distinct_add(&(struct { uint64_t m; int i, f; }){millis, interrupts, failed}, 16);
	mc_tick();
}

static void clocks(void)
{
	static const int64_t sec[] = {0, 1, 2, 59, 2147483, 2147484, 4294967, 4294968, 2147483646, 2147483647, 2147483648ll, 4294967295ll,
				      4294967296ll, 8589934592ll, 9007199254ll, 9007199255ll, 9223372035ll, 9223372036ll,
				      9223372037ll, 18446744072ll};
	static const long ns[] = {0, 1, 999, 1000, 999999, 1000000, 1000001, 499999999, 500000000, 998999999, 999000000, 999999999};
	uint64_t last[4] = {0, 0, 0, 0};

	slept = 0;

	for (int w = 0; w < 2; w++)
		for (unsigned s = 0; s < sizeof(sec) / sizeof(*sec); s++)
			for (unsigned n = 0; n < sizeof(ns) / sizeof(*ns); n++) {
				uint64_t m, x;

				now[w] = (struct timespec){sec[s], ns[n]};
				now[!w] = (struct timespec){77, 77777777};
				m = w ? sc_time_mono_ms() : sc_time_ms();
				x = w ? sc_time_mono_ns() : sc_time_ns();
				MC_CHECK(m == (uint64_t) sec[s] * 1000 + (uint64_t) ns[n] / 1000000, "ms",
					 "%s milliseconds of %lld.%09ld: %llu", w ? "monotonic" : "real", (long long) sec[s], ns[n],
					 (unsigned long long) m);
				MC_CHECK(x == (uint64_t) sec[s] * 1000000000u + (uint64_t) ns[n], "ns", "%s nanoseconds of %lld.%09ld: %llu",
					 w ? "monotonic" : "real", (long long) sec[s], ns[n], (unsigned long long) x);
				MC_CHECK(m >= last[w * 2] && x >= last[w * 2 + 1], "backwards", "the clock goes backwards");
				last[w * 2] = m;
				last[w * 2 + 1] = x;
				mc_evals++;
				mc_distinct_add(&x, sizeof(x));
			}
	MC_CHECK(clock_reads > 0, "clock", "no clock read");
}

int main(int argc, char **argv)
{
	mc_init(argc, argv);
	if (mc_mine("clocks"))
		clocks();
	for (unsigned i = 0; i < sizeof(ms) / sizeof(*ms); i++) {
		millis = ms[i];
		max_interrupts = mc_thorough ? 7 : 5;
		if (mc_mine("sleep %llu", (unsigned long long) millis))
			mc_dfs(run, 0, UINT64_MAX);
	}
	return mc_done();
}
