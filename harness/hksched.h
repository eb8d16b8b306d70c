/*
 * A seeded cooperative scheduler. Code compiled with -fsanitize=thread calls
 * the __tsan_* functions before every memory access; linked with this runtime
 * instead of libtsan, every such call is a point where another fiber may be
 * scheduled. All choices come from one random stream, so that an interleaving
 * is replayed by its seed.
 */
#ifndef HK_SCHED_H
#define HK_SCHED_H
#include <stdint.h>
#include <stdbool.h>
typedef void (*sched_fn)(int fiber, void *arg);
enum { SCHED_MAX_FIBERS = 8 };
struct sched_conf {
	int nfibers;
	/** 0: random walk, 1: priorities with change points. */
	int strategy;
	/** Random walk: switch with probability 1/inv. */
	int inv_switch;
	/** Priorities: number of change points and expected length. */
	int nchange;
	int length;
	/** A weak compare-exchange fails spuriously with probability 1/n. */
	int spurious_inv;
	/** Give up (livelock) after that many steps. */
	uint64_t max_steps;
};
/** Run all fibers to the end. False if they did not end in max_steps. */
bool sched_run(const struct sched_conf *c, sched_fn fn, void *arg);
/** A scheduling point of the harness's own. */
void sched_yield_point(void);
/** Number of scheduling points so far and a hash of the choices. */
extern uint64_t sched_steps, sched_switches, sched_sig, sched_spurious;
extern int sched_cur;
extern bool sched_on;
/** Called at every scheduling point. */
extern void (*sched_hook)(void);
#endif
