/*
Real threads, one at a time: which one runs is decided at every memory access of instrumented code.

Instrumented translation units are compiled with the compiler's thread sanitizer instrumentation, but its
runtime is replaced by this one: each access is a point where the plan may preempt, and is checked for
a race, that is, for an access of another task to the same bytes, one of the two a write, which no
synchronisation orders. The handing over of the baton is no such synchronisation.
*/

#pragma once

#include <cstddef>
#include <cstdint>

namespace sim {

enum { MAX_TASKS = 4, MAX_SWITCHES = 4096 };

// when the task has made so many accesses, the target runs; then, count times, another one every period accesses
// or, when it has made so many synchronisation operations and count times every period of them, the target runs
struct Preempt
{
	bool sync;
	int task, target;
	uint64_t at, period, count;
};

struct Taken { int from, to; uint64_t at; };

struct ThreadReport
{
	bool race, deadlock;
	char what[256];
	uint64_t accesses[MAX_TASKS]; // of each task
	uint64_t syncs[MAX_TASKS]; // atomic operations, locks, guarded initialisations
	uint64_t lost; // accesses not checked for lack of memory
	int switches; // taken, the first MAX_SWITCHES of them in list
	Taken list[MAX_SWITCHES];
};

// once per process; body(i) is run by task i
void run_tasks(int n, void (*body)(int), const Preempt *preempts, int npreempts, int first, ThreadReport &);

// a point where the plan may preempt
void preemption_point();

}
