/* The step counter of the "stepped" build: the compiler calls these at every
 * basic block, load and store of the code under test. While armed, a thread
 * counts its steps; when its allowance is used up the simulator decides what
 * happens next. Not instrumented itself. */
#include <stdint.h>

uint64_t dst_steps_expired(void);

static __thread int armed;
static __thread uint64_t left, total;

int dst_steps_arm(int a) { int was = armed; armed = a; return was; }
void dst_steps_allow(uint64_t n) { left = n; }
uint64_t dst_steps_total(void) { return total; }
void dst_steps_reset(void) { total = 0; }

static inline void step(void) {
    if (!armed) return;
    total++;
    if (--left) return;
    armed = 0;
    left = dst_steps_expired();
    armed = 1;
}

void __sanitizer_cov_trace_pc(void) { step(); }
#define A(n) void __sanitizer_cov_load##n(void *p) { (void)p; step(); } void __sanitizer_cov_store##n(void *p) { (void)p; step(); }
A(1) A(2) A(4) A(8) A(16)
