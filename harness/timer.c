/* C07/C08: timer wheel against a reference schedule.
 * -DCB=1: callbacks add and cancel timers, allocations fail. */
#include "mc.h"
#include "sc_timer.h"

#include <string.h>

#ifndef CB
#define CB 0
#endif

#define MAXT 24
#define TICK 16u

static struct sc_timer obj;
static struct mt {
	uint64_t id;
	uint64_t deadline;
	uint32_t type;
	uint8_t live;
	uint8_t cap; /* longest possible expiry */
} mt[MAXT];
static struct {
	uint64_t now;  /* latest timestamp given */
	uint64_t base; /* start of the current tick */
	uint32_t next; /* tag of the next timer */
} g;

/* in flight poll */
static struct {
	bool active;
	uint64_t ts;
	int calls;
	int act; /* what the callback does */
	int act_on; /* at which call */
	uint64_t ticks;
	bool full;
} poll;

static const uint64_t *delays;
static int ndelays;
static const uint64_t *steps;
static int nsteps;
static const uint64_t asteps[] = {16, 40, 256};
static int prefill;
static uint64_t prefill_d, t_start;

#define NACT 8

static int find_free(void)
{
	for (int i = 0; i < MAXT; i++)
		if (!mt[i].live)
			return i;
	return -1;
}

static void *data_of(uint32_t type)
{
	return (void *) (uintptr_t) (0x7000 + type * 3);
}

static bool add(uint64_t d)
{
	int i = find_free();
	uint32_t type = g.next;
	uint64_t id;
	struct mt *t;

	if (i < 0)
		return false;
	for (int k = 0; k < MAXT; k++)
		if (mt[k].live && mt[k].type == type) {
			type = (type + 1) % 29;
			k = -1;
		}
	g.next = (type + 1) % 29;
	id = sc_timer_add(&obj, d, type, data_of(type));
	if (id == SC_TIMER_INVALID) {
#ifdef SC_TIMER_MAX
		int live = 0;
		for (int k = 0; k < MAXT; k++)
			live += mt[k].live;
		MC_CHECK(obj.wheel <= SC_TIMER_MAX, "limit", "%u slots", obj.wheel);
		if ((uint32_t) live >= obj.wheel && obj.wheel * 2 >= SC_TIMER_MAX)
			return true;
#endif
		MC_CHECK(mc_alloc_failed > 0, "oom-spurious",
			 "add failed although no allocation failed");
		return true;
	}
	t = &mt[i];
	memset(t, 0, sizeof(*t));
	for (int k = 0; k < MAXT; k++)
		MC_CHECK(!mt[k].live || mt[k].id != id, "id",
			 "add returned the id of a pending timer");
	t->live = 1;
	t->id = id;
	t->type = type;
	t->cap = d >= UINT64_MAX - g.now;
	t->deadline = t->cap ? UINT64_MAX : g.now + d;
	return true;
}

static void cancel(int i)
{
	sc_timer_cancel(&obj, &mt[i].id);
	MC_CHECK(mt[i].id == SC_TIMER_INVALID, "cancel-id",
		 "cancel did not invalidate the id");
	memset(&mt[i], 0, sizeof(mt[i]));
}

static int pick(bool newest)
{
	int r = -1;
	for (int i = 0; i < MAXT; i++)
		if (mt[i].live &&
		    (r < 0 || (newest ? mt[i].deadline > mt[r].deadline :
					mt[i].deadline < mt[r].deadline)))
			r = i;
	return r;
}

static int arg_token;

static void callback(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	int i;

	mc_tick();
	MC_CHECK(poll.active, "cb-when", "callback outside a poll");
	MC_CHECK(arg == &arg_token, "cb-arg", "callback argument");
	for (i = 0; i < MAXT; i++)
		if (mt[i].live && mt[i].type == type)
			break;
	MC_CHECK(i < MAXT, "cb-ghost",
		 "callback for a timer that is not pending (type %llu): fired "
		 "twice, or cancelled, or never added",
		 (unsigned long long) type);
	if (i >= MAXT)
		return;
	MC_CHECK(data == data_of(mt[i].type), "cb-data", "callback data");
	MC_CHECK(mt[i].deadline <= poll.ts, "early",
		 "timer due at %llu fired at %llu",
		 (unsigned long long) mt[i].deadline,
		 (unsigned long long) poll.ts);
	MC_CHECK(timeout == mt[i].deadline, "cb-timeout",
		 "callback reports timeout %llu, scheduled was %llu",
		 (unsigned long long) timeout,
		 (unsigned long long) mt[i].deadline);
	memset(&mt[i], 0, sizeof(mt[i]));
	if (++poll.calls == poll.act_on) {
		static const uint64_t d[] = {0, 16, 100, 250, 256, 1};
		switch (poll.act) {
		case 1: /* add a few, the wheel may grow during the poll */
			for (int k = 0; k < 3; k++)
				add(d[k]);
			break;
		case 2:
			for (int k = 0; k < 6; k++)
				add(d[3]);
			break;
		case 3: /* cancel another pending timer */
			if ((i = pick(false)) >= 0)
				cancel(i);
			break;
		case 4:
			if ((i = pick(true)) >= 0)
				cancel(i);
			break;
		case 5: /* cancel everything */
			while ((i = pick(true)) >= 0)
				cancel(i);
			break;
		case 6: /* the same slot again and again */
			for (int k = 0; k < 9; k++)
				add(d[0]);
			break;
		case 7:
			if ((i = pick(false)) >= 0)
				cancel(i);
			for (int k = 0; k < 5; k++)
				add(d[4]);
			break;
		}
	}
}

static bool do_poll(uint64_t dt, int act, int act_on)
{
	uint64_t ret, ticks;

	if (UINT64_MAX - g.now <= dt + 1)
		return false;
	memset(&poll, 0, sizeof(poll));
	poll.active = true;
	poll.ts = g.now + dt;
	poll.act = act;
	poll.act_on = act_on;
	ticks = (poll.ts - g.base) / TICK;
	g.now = poll.ts;
	if (ticks) {
		/* what callbacks add is relative to this timestamp */
		g.base += ticks * TICK;
	}
	/* timers present now must be delivered by this poll if due for long */
	uint8_t must[MAXT];
	uint32_t tag[MAXT];
	for (int i = 0; i < MAXT; i++) {
		must[i] = mt[i].live && !mt[i].cap &&
			  poll.ts - TICK >= mt[i].deadline &&
			  poll.ts >= TICK;
		tag[i] = mt[i].type;
	}
	ret = sc_timer_timeout(&obj, poll.ts, &arg_token, callback);
	poll.active = false;
	for (int i = 0; i < MAXT; i++)
		MC_CHECK(!(must[i] && mt[i].live && mt[i].type == tag[i]),
			 "late",
			 "timer due at %llu is not delivered by the poll at "
			 "%llu, more than a tick later",
			 (unsigned long long) mt[i].deadline,
			 (unsigned long long) poll.ts);
	MC_CHECK(ret >= 1 && ret <= TICK - (poll.ts - g.base),
		 "ret",
		 "poll asks to be called again in %llu ms, the next tick is in "
		 "%llu ms", (unsigned long long) ret,
		 (unsigned long long) (TICK - (poll.ts - g.base)));
	memset(&poll, 0, sizeof(poll));
	return true;
}

static void sys_init(void)
{
	memset(&obj, 0x5c, sizeof(obj));
	memset(mt, 0, sizeof(mt));
	memset(&g, 0, sizeof(g));
	memset(&poll, 0, sizeof(poll));
	g.now = g.base = t_start;
	sc_timer_init(&obj, t_start);
	for (int i = 0; i < prefill; i++)
		add(prefill_d + (uint64_t) i % 2);
}

static bool apply(int op)
{
	int i;

	if (op < ndelays) {
		int n = 0;
		for (i = 0; i < MAXT; i++)
			n += mt[i].live;
		if (n >= prefill + 6)
			return false;
		return add(delays[op]);
	}
	op -= ndelays;
	if (op < nsteps)
		return do_poll(steps[op], 0, 0);
	op -= nsteps;
	if (op < 3) {
		if (op == 2) {
			uint64_t inv = SC_TIMER_INVALID;
			sc_timer_cancel(&obj, &inv);
			return true;
		}
		i = pick(op == 1);
		if (i < 0)
			return false;
		cancel(i);
		return true;
	}
	op -= 3;
	if (op == 0) {
		sc_timer_clear(&obj);
		memset(mt, 0, sizeof(mt));
		return true;
	}
	if (op == 1) {
		sc_timer_term(&obj);
		MC_CHECK(!mc_live_blocks(), "leak", "leak after term");
		memset(mt, 0, sizeof(mt));
		return true;
	}
	op -= 2;
	/* polls whose callback acts: step x action x at which call */
	return do_poll(asteps[op / (NACT * 2)], op / 2 % NACT,
		       op % 2 ? 2 : 1);
}

static bool has_live(void)
{
	for (int i = 0; i < MAXT; i++)
		if (mt[i].live && !mt[i].cap)
			return true;
	return false;
}

/* sleeping for what poll returns delivers everything */
static void check(void)
{
	uint64_t start = g.now, last = 0;

	for (int i = 0; i < MAXT; i++)
		if (mt[i].live && !mt[i].cap && mt[i].deadline > last)
			last = mt[i].deadline;
	if (last > start + 2000) {
		if (last - start > (1ull << 62))
			return;
		do_poll(last - start - 300, 0, 0);
	}
	for (int n = 0; has_live(); n++) {
		uint64_t r;
		MC_CHECK(n < 400 && g.now <= (last > start ? last : start) + 48,
			 "starve",
			 "sleeping as told, a timer due at %llu is still "
			 "pending at %llu", (unsigned long long) last,
			 (unsigned long long) g.now);
		memset(&poll, 0, sizeof(poll));
		/* sleep exactly until the next tick */
		r = TICK - (g.now - g.base);
		do_poll(r, 0, 0);
	}
}

static void term(void)
{
	sc_timer_term(&obj);
	sc_timer_term(&obj);
}

static void opname(int op, char *b, size_t n)
{
	if (op < ndelays)
		snprintf(b, n, "add(%llu)", (unsigned long long) delays[op]);
	else if ((op -= ndelays) < nsteps)
		snprintf(b, n, "poll(+%llu)", (unsigned long long) steps[op]);
	else if ((op -= nsteps) < 5)
		snprintf(b, n, "%s",
			 (const char *[]) {"cancel(oldest)", "cancel(newest)",
					   "cancel(invalid)", "clear",
					   "term"}[op]);
	else {
		op -= 5;
		snprintf(b, n, "poll(+%llu, callback %d does action %d)",
			 (unsigned long long) asteps[op / (NACT * 2)],
			 op % 2 + 1, op / 2 % NACT);
	}
}

/* ---- far more timers in one tick than any counter of 16 bits holds ---------------- */
#define CROWD 66000
static uint64_t crowd_id[CROWD];
static uint8_t crowd_fired[CROWD];
static uint64_t crowd_due, crowd_spread;

static void crowd_cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	MC_CHECK(arg == &arg_token && type < CROWD && data == data_of((uint32_t) type), "crowd", "callback arguments");
	MC_CHECK(timeout == crowd_due + type % crowd_spread, "cb-timeout", "timer %d is reported for %d", (int) type, (int) timeout);
	if (type < CROWD && ++crowd_fired[type] != 1)
		mc_fail("crowd", "timer %d fires twice or after it was cancelled", (int) type);
}
/* every step-th timer is cancelled; then the slots are used again */
static void crowd(uint32_t step, uint32_t spread)
{
	uint32_t fired = 0, n = 0;
	uint64_t now;

	mc_heap_reset();
	mc_big_limit = 1ul << 30;
	sc_timer_init(&obj, 1000);
	crowd_due = 1100;
	crowd_spread = spread;
	memset(crowd_fired, 0, sizeof(crowd_fired));
	for (uint32_t i = 0; i < CROWD; i++) {
		mc_alloc_reset(1);
		crowd_id[i] = sc_timer_add(&obj, 100 + i % spread, i, data_of(i));
		if (crowd_id[i] == SC_TIMER_INVALID && mc_alloc_failed) {
			mc_alloc_reset(0);
			crowd_id[i] = sc_timer_add(&obj, 100 + i % spread, i, data_of(i));
		}
		mc_alloc_reset(0);
		if (crowd_id[i] == SC_TIMER_INVALID)
			mc_fail("oom-spurious", "timer %u of one tick is refused", i);
		if (i % 256 == 0)
			mc_tick();
	}
	for (uint32_t i = CROWD - 1; i < CROWD; i -= step) {
		sc_timer_cancel(&obj, &crowd_id[i]);
		MC_CHECK(crowd_id[i] == SC_TIMER_INVALID, "cancel-id", "cancel did not invalidate the id");
		crowd_fired[i] = 1;
		n++;
	}
	sc_timer_timeout(&obj, 1090, &arg_token, crowd_cb);
	for (now = 1100; now < 1100 + spread + 20; now += spread > 1000 ? 16 * 100 : 20) {
		sc_timer_timeout(&obj, now, &arg_token, crowd_cb);
		/* due more than a tick ago */
		for (uint32_t i = 0; i < CROWD; i += spread > 1000 ? 7 : 1)
			MC_CHECK(crowd_fired[i] || crowd_due + i % spread + 16 > now, "crowd",
				 "timer %u, due at %u, is pending at %u", i, (unsigned) (crowd_due + i % spread), (unsigned) now);
		mc_tick();
	}
	now = 1100 + spread + 40;
	sc_timer_timeout(&obj, now, &arg_token, crowd_cb);
	for (uint32_t i = 0; i < CROWD; i++)
		fired += crowd_fired[i];
	MC_CHECK(fired == CROWD, "crowd", "%u of %u timers of one tick are not delivered", CROWD - fired, CROWD);
	sc_timer_timeout(&obj, now + 5000, &arg_token, crowd_cb);
	sc_timer_term(&obj);
	mc_evals++;
	mc_big_limit = 0;
}

int main(int argc, char **argv)
{
	static const uint64_t s4[] = {16, 1ull << 36, (1ull << 36) + 17, (1ull << 40) + 255, 1ull << 32, (1ull << 32) + 40, 1ull << 60};
	static const uint64_t d4[] = {0, 100, 1ull << 32, (1ull << 36) + 5, 1ull << 40};
	static const uint64_t d0[] = {0, 1, 15, 16, 17, 31, 240, 255, 256, 257,
				      300, 1000};
	static const uint64_t d1[] = {0, 16, 250};
	static const uint64_t d2[] = {UINT64_MAX, UINT64_MAX - 1,
				      UINT64_MAX - 1000, UINT64_MAX / 2, 40};
	static const uint64_t d3[] = {5, 20, 47, 250, 260, 500};
	static const uint64_t s0[] = {0, 1, 15, 16, 17, 31, 33, 100, 240, 255,
				      256, 272, 1000};
	static const uint64_t s1[] = {16, 17, 31, 256, 15};
	static const uint64_t s2[] = {9, 25, 48, 239};
#define A(x) x, (int) (sizeof(x) / sizeof(x[0]))
	static const struct {
		const uint64_t *d;
		int nd;
		const uint64_t *s;
		int ns;
		int pre;
		uint64_t pred;
		uint64_t start;
		int depth, tdepth;
	} cf[] = {
		{A(d0), A(s0), 0, 0, 1000, 4, 5},
		{A(d1), A(s1), 0, 0, 0, 6, 8},
		{A(d3), A(s2), 0, 0, 12345, 5, 7},
		{A(d1), A(s1), 3, 20, 7, 5, 7},
		{A(d1), A(s1), 4, 16, 1ull << 40, 5, 7},
		{A(d1), A(s1), 8, 250, 100, 5, 6},
		{A(d1), A(s1), 16, 0, 31, 4, 6},
		{A(d2), A(s1), 0, 0, 1000, 5, 6},
		{A(d2), A(s0), 2, 10, UINT64_MAX - 3000, 4, 5},
		{A(d3), A(s2), 7, 300, 3, 5, 6},
		{A(d4), A(s4), 0, 0, 1000, 5, 6},
		{A(d1), A(s4), 4, 10, 1ull << 33, 4, 5},
	};
	static struct mc_sys s;

	mc_init(argc, argv);
	for (unsigned i = 0; i < sizeof(cf) / sizeof(cf[0]); i++)
		for (int part = 0; part < 1; part++) {
			int depth = mc_thorough ? cf[i].tdepth : cf[i].depth;
			if (CB)
				depth -= 1;
			if (!mc_mine("timer cb=%d set=%u prefill=%d x %llu "
				     "start=%llu depth=%d",
				     CB, i, cf[i].pre,
				     (unsigned long long) cf[i].pred,
				     (unsigned long long) cf[i].start, depth))
				continue;
			delays = cf[i].d;
			ndelays = cf[i].nd;
			steps = cf[i].s;
			nsteps = cf[i].ns;
			prefill = cf[i].pre;
			prefill_d = cf[i].pred;
			t_start = cf[i].start;
			memset(&s, 0, sizeof(s));
			s.init = sys_init;
			s.apply = apply;
			s.check = check;
			s.term = term;
			s.opname = opname;
			s.nops = ndelays + nsteps + 5 +
				 (CB ? 3 * NACT * 2 : 0);
			s.faults = CB;
			s.max_depth = depth;
			s.max_states = mc_thorough ? 1000000 : CB ? 40000 : 80000;
			mc_regions_clear();
			mc_region(&obj, sizeof(obj));
			mc_region(mt, sizeof(mt));
			mc_region(&g, sizeof(g));
			mc_bfs(&s);
		}
	if (!CB)
		for (uint32_t step = 1; step <= 3; step++)
			if (mc_mine("a crowd of timers, every %u cancelled", 4 - step))
				for (int k = 0; k < 5; k++)
					crowd(4 - step, (uint32_t[]){2, 1, 17, 300, 30000}[k]);
	return mc_done();
}
