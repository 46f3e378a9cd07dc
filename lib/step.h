/* Engine D: executes code one machine instruction at a time and calls back
 * at a chosen instruction boundary (a signal can arrive at any of them). */
#ifndef STEP_H
#define STEP_H
#include <stdint.h>
/* code in this section is stepped over without being counted */
#define STEP_SKIP __attribute__((section("hsec"), noinline, no_sanitize_address))

void step_install(void);
/* starts counting; at the k-th boundary (1-based) `at` is called in signal
 * context; k == 0: only count; k < 0: at every boundary */
void step_arm(long k, void (*at)(void));
void step_begin(void) STEP_SKIP; /* call directly before the stepped code */
void step_end(void) STEP_SKIP;
extern volatile long step_count; /* boundaries seen since step_arm */
extern volatile int step_hit;
#endif
