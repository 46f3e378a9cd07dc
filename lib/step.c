#define _GNU_SOURCE
#include "step.h"
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

volatile long step_count;
volatile int step_hit;
static volatile long step_k;
static void (*volatile step_at)(void);
extern const char __start_hsec[], __stop_hsec[];

static void on_trap(int sig, siginfo_t *si, void *c)
{
	ucontext_t *uc = c;
	const char *ip = (const char *) uc->uc_mcontext.gregs[REG_RIP];
	void (*at)(void) = step_at;

	(void) sig;
	(void) si;
	if (ip >= __start_hsec && ip < __stop_hsec)
		return;
	step_count++;
	if (step_k > 0 && step_count == step_k) {
		step_hit = 1;
		/* stop stepping: one arrival per execution */
		uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
		if (at)
			at();
	} else if (step_k < 0 && at) {
		step_hit++;
		at();
	}
}

void step_install(void)
{
	struct sigaction sa;

	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigemptyset(&sa.sa_mask);
	if (sigaction(SIGTRAP, &sa, NULL))
		abort();
}

void step_arm(long k, void (*at)(void))
{
	step_count = 0;
	step_hit = 0;
	step_k = k;
	step_at = at;
}

void step_begin(void)
{
	__asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}

void step_end(void)
{
	__asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" ::: "memory", "cc");
}
