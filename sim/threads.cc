#include "threads.hh"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

// Only plain functions and arrays here: anything from a template could be the instrumented copy of it.

namespace sim {

struct Task
{
	int id;
	pthread_t thread;
	sem_t sem;
	uint64_t accesses, limit, syncs;
	uint32_t clock[MAX_TASKS];
	bool done;
	const void *waits; // for this lock or initialisation
	uintptr_t lo, hi; // stack and thread-local storage
	int spin; // atomic operations in a row without a switch
	int next; // index into its preemptions
};

static __thread Task *self __attribute__((tls_model("initial-exec")));
static Task tasks[MAX_TASKS];
static int ntasks;
static sem_t main_sem;
static void (*task_body)(int);
static const Preempt *plan;
static int nplan;
static ThreadReport *report;
static uint64_t burst_period, burst_left;

// what each task last did to eight bytes
struct Cell
{
	uintptr_t key;
	struct { uint32_t read, write; uint8_t rmask, wmask; } by[MAX_TASKS];
};
enum { CELLS = 1 << 18 };
static Cell *cells;
static uint64_t used;

static Cell *cell(uintptr_t key, bool make)
{
	uintptr_t i = key & (CELLS - 1);
	for (int n = 0; n < 4096; ++n, i = (i + 1) & (CELLS - 1)) {
		if (cells[i].key == key)
			return cells + i;
		if (!cells[i].key) {
			if (!make)
				return nullptr;
			if (++used > CELLS / 2)
				break;
			cells[i].key = key;
			return cells + i;
		}
	}
	return nullptr;
}

static void forget(const void *p, size_t n)
{
	if (!self || !cells || !p)
		return;
	uintptr_t a = uintptr_t(p) >> 3, b = (uintptr_t(p) + n + 7) >> 3;
	for (; a < b; ++a)
		if (Cell *c = cell(a, false))
			memset(c->by, 0, sizeof c->by);
}

static void race(uintptr_t addr, Task *t, int other, bool write, bool was)
{
	if (report->race)
		return;
	report->race = true;
	Dl_info info;
	const char *name = "";
	memset(&info, 0, sizeof info);
	if (dladdr((void *)addr, &info) && info.dli_sname)
		name = info.dli_sname;
	snprintf(report->what, sizeof report->what, "tasks %d and %d %s%s the same %s without synchronisation %s", other, t->id, was ? "write" : "read",
		was == write ? "" : write ? " and write" : " and read", info.dli_fname ? "static variable" : "memory", name);
}

static void check(uintptr_t addr, size_t size, bool write)
{
	Task *t = self;
	uint32_t now = t->clock[t->id];
	while (size) {
		uintptr_t key = addr >> 3;
		unsigned off = addr & 7;
		size_t n = 8 - off < size ? 8 - off : size;
		uint8_t mask = uint8_t(((1u << n) - 1) << off);
		Cell *c = cell(key, true);
		if (!c) {
			++report->lost;
		} else {
			for (int o = 0; o < ntasks; ++o) {
				if (o == t->id)
					continue;
				if ((c->by[o].wmask & mask) && c->by[o].write > t->clock[o])
					race(addr, t, o, write, true);
				else if (write && (c->by[o].rmask & mask) && c->by[o].read > t->clock[o])
					race(addr, t, o, write, false);
			}
			auto &m = c->by[t->id];
			if (write) {
				m.wmask = m.write == now ? m.wmask | mask : mask;
				m.write = now;
			} else {
				m.rmask = m.read == now ? m.rmask | mask : mask;
				m.read = now;
			}
		}
		addr += n;
		size -= n;
	}
}

static void set_limit(Task *t)
{
	uint64_t limit = ~uint64_t(0);
	for (int i = 0; i < nplan; ++i)
		if (!plan[i].sync && plan[i].task == t->id && i >= t->next && plan[i].at < limit)
			limit = plan[i].at;
	if (burst_left && t->accesses + burst_period < limit)
		limit = t->accesses + burst_period;
	t->limit = limit;
}

static bool runnable(int i) { return i >= 0 && i < ntasks && !tasks[i].done && !tasks[i].waits; }

static int other_than(int me)
{
	for (int k = 1; k <= ntasks; ++k)
		if (runnable((me + k) % ntasks))
			return (me + k) % ntasks;
	return -1;
}

static void switch_to(int to)
{
	Task *t = self;
	if (to == t->id)
		return;
	if (report->switches < MAX_SWITCHES) {
		Taken &s = report->list[report->switches];
		s.from = t->id;
		s.to = to;
		s.at = t->accesses;
	}
	++report->switches;
	tasks[to].spin = 0;
	set_limit(&tasks[to]);
	sem_post(&tasks[to].sem);
	while (sem_wait(&t->sem)) ;
}

static void deadlock()
{
	report->deadlock = true;
	sem_post(&main_sem);
	for (;;)
		sem_wait(&self->sem);
}

static void slow_path()
{
	Task *t = self;
	int to = -1;
	// of the preemptions that are due the first one
	while (t->next < nplan) {
		int due = -1;
		for (int i = t->next; i < nplan && due < 0; ++i)
			if (!plan[i].sync && plan[i].task == t->id && plan[i].at <= t->accesses)
				due = i;
		if (due < 0)
			break;
		t->next = due + 1;
		to = plan[due].target;
		if (plan[due].count) {
			burst_period = plan[due].period ? plan[due].period : 1;
			burst_left = plan[due].count;
		}
		break;
	}
	if (to < 0 && burst_left) {
		--burst_left;
		to = other_than(t->id);
	}
	set_limit(t);
	if (to >= 0 && to != t->id && runnable(to))
		switch_to(to);
}

static inline void step(Task *t)
{
	if (++t->accesses >= t->limit)
		slow_path();
}

static inline void access(const volatile void *p, size_t size, bool write)
{
	Task *t = self;
	if (!t)
		return;
	uintptr_t a = uintptr_t(p);
	if (a < t->lo || a >= t->hi)
		check(a, size, write);
	step(t);
}

// before and after every synchronisation operation
static void sync_point()
{
	Task *t = self;
	++t->syncs;
	for (int i = 0; i < nplan; ++i) {
		const Preempt &p = plan[i];
		if (!p.sync || p.task != t->id || t->syncs < p.at)
			continue;
		uint64_t since = t->syncs - p.at, period = p.period ? p.period : 1;
		if (since % period || since / period > p.count || p.target == t->id || !runnable(p.target))
			continue;
		switch_to(p.target);
		return;
	}
	step(t);
}

void preemption_point()
{
	if (self)
		step(self);
}

// synchronisation objects by address
struct Sync
{
	const volatile void *key;
	uint32_t clock[MAX_TASKS];
	int owner; // 1 + task, 0: free
	int depth, readers;
};
enum { SYNCS = 4096 };
static Sync syncs[SYNCS];

static Sync *sync_of(const volatile void *p)
{
	size_t i = (uintptr_t(p) >> 2) % SYNCS;
	for (int n = 0; n < SYNCS; ++n, i = (i + 1) % SYNCS) {
		if (syncs[i].key == p)
			return syncs + i;
		if (!syncs[i].key) {
			syncs[i].key = p;
			return syncs + i;
		}
	}
	abort();
}

static void acquire(Sync *s)
{
	for (int i = 0; i < ntasks; ++i)
		if (self->clock[i] < s->clock[i])
			self->clock[i] = s->clock[i];
}

static void release(Sync *s, bool join)
{
	for (int i = 0; i < ntasks; ++i)
		if (!join || s->clock[i] < self->clock[i])
			s->clock[i] = self->clock[i];
	++self->clock[self->id];
}

// waits until somebody wakes those waiting for p
static void block(const void *p)
{
	self->waits = p;
	int to = other_than(self->id);
	if (to < 0)
		deadlock();
	switch_to(to);
}

static void wake(const void *p)
{
	for (int i = 0; i < ntasks; ++i)
		if (tasks[i].waits == p)
			tasks[i].waits = nullptr;
}

static void atomic_point()
{
	sync_point();
	// whoever spins waits for another one
	if (++self->spin > 64) {
		self->spin = 0;
		int to = other_than(self->id);
		if (to >= 0)
			switch_to(to);
	}
}

static void *task_main(void *arg)
{
	Task *t = static_cast<Task *>(arg);
	while (sem_wait(&t->sem)) ;
	self = t;
	task_body(t->id);
	self = nullptr;
	t->done = true;
	int to = other_than(t->id);
	if (to >= 0) {
		set_limit(&tasks[to]);
		tasks[to].spin = 0;
		sem_post(&tasks[to].sem);
	} else {
		for (int i = 0; i < ntasks; ++i)
			if (!tasks[i].done)
				report->deadlock = true;
		sem_post(&main_sem);
	}
	return nullptr;
}

void run_tasks(int n, void (*body)(int), const Preempt *preempts, int npreempts, int first, ThreadReport &rep)
{
	memset(&rep, 0, offsetof(ThreadReport, list));
	ntasks = n;
	task_body = body;
	plan = preempts;
	nplan = npreempts;
	report = &rep;
	cells = static_cast<Cell *>(mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (cells == MAP_FAILED)
		abort();
	sem_init(&main_sem, 0, 0);
	const size_t stack = 512 << 10;
	for (int i = 0; i < n; ++i) {
		Task &t = tasks[i];
		memset(&t, 0, sizeof t);
		t.id = i;
		t.clock[i] = 1;
		sem_init(&t.sem, 0, 0);
		char *mem = static_cast<char *>(mmap(nullptr, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0));
		if (mem == MAP_FAILED)
			abort();
		t.lo = uintptr_t(mem);
		t.hi = t.lo + stack;
		pthread_attr_t attr;
		pthread_attr_init(&attr);
		pthread_attr_setstack(&attr, mem, stack);
		if (pthread_create(&t.thread, &attr, task_main, &t))
			abort();
		pthread_attr_destroy(&attr);
	}
	for (int i = 0; i < n; ++i)
		set_limit(&tasks[i]);
	sem_post(&tasks[first % n].sem);
	while (sem_wait(&main_sem)) ;
	if (!rep.deadlock)
		for (int i = 0; i < n; ++i)
			pthread_join(tasks[i].thread, nullptr);
	for (int i = 0; i < n; ++i) {
		rep.accesses[i] = tasks[i].accesses;
		rep.syncs[i] = tasks[i].syncs;
	}
}

static bool lock(void *m, bool wait)
{
	Sync *s = sync_of(m);
	sync_point();
	while (s->owner && s->owner != self->id + 1) {
		if (!wait)
			return false;
		block(m);
	}
	if (s->owner && !wait)
		return false;
	if (s->owner && s->depth > 64)
		deadlock();
	s->owner = self->id + 1;
	++s->depth;
	acquire(s);
	return true;
}

static void unlock(void *m)
{
	Sync *s = sync_of(m);
	release(s, true);
	if (--s->depth <= 0) {
		s->depth = 0;
		s->owner = 0;
		wake(m);
	}
	sync_point();
}

}

using namespace sim;

extern "C" {

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);

// memory handed out is new to whoever gets it
void *malloc(size_t n) { void *p = __libc_malloc(n); forget(p, n); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); forget(p, n * m); return p; }
void *realloc(void *o, size_t n) { void *p = __libc_realloc(o, n); forget(p, n); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); forget(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void *p) { access(p, N, false); } \
void __tsan_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, sizeof *p, true); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false); }

void *sim_memcpy(void *d, const void *s, size_t n)
{
	if (n) {
		access(s, n, false);
		access(d, n, true);
	}
	return memcpy(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n)
{
	if (n) {
		access(s, n, false);
		access(d, n, true);
	}
	return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n)
{
	if (n)
		access(d, n, true);
	return memset(d, c, n);
}

#define POINT(P) if (self) { atomic_point(); }
#define ACQ(P, MO) if (self && (MO) != 0 && (MO) != 3) acquire(sync_of(P));
#define REL(P, MO, JOIN) if (self && (MO) >= 3) release(sync_of(P), JOIN);
#define RMW(N, T, NAME, EXPR) \
T __tsan_atomic##N##_##NAME(volatile T *p, T v, int mo) { POINT(p) ACQ(p, mo) T old = *p; *p = T(EXPR); REL(p, mo, true) return old; }
#define ATOMIC(N, T) \
T __tsan_atomic##N##_load(const volatile T *p, int mo) { POINT(p) ACQ(p, mo) return *p; } \
void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { POINT(p) *p = v; REL(p, mo, false) } \
RMW(N, T, exchange, v) RMW(N, T, fetch_add, old + v) RMW(N, T, fetch_sub, old - v) RMW(N, T, fetch_and, old & v) \
RMW(N, T, fetch_or, old | v) RMW(N, T, fetch_xor, old ^ v) RMW(N, T, fetch_nand, ~(old & v)) \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) \
{ \
	POINT(p) \
	if (*p == *c) { ACQ(p, mo) *p = v; REL(p, mo, true) return 1; } \
	ACQ(p, fmo) *c = *p; return 0; \
} \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence;
void __tsan_atomic_thread_fence(int mo) { POINT(&fence) ACQ(&fence, mo) REL(&fence, mo, true) }
void __tsan_atomic_signal_fence(int) {}

// guarded initialisation of local statics: first byte of the guard is set when done, second while under way
int __cxa_guard_acquire(uint64_t *g)
{
	volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(g);
	if (!self) {
		if (b[0])
			return 0;
		b[1] = 1;
		return 1;
	}
	Sync *s = sync_of(g);
	sync_point();
	while (!b[0] && b[1])
		block(g);
	if (b[0]) {
		acquire(s);
		return 0;
	}
	b[1] = 1;
	return 1;
}
static void guard_done(uint64_t *g, bool ok)
{
	volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(g);
	b[1] = 0;
	if (ok)
		b[0] = 1;
	if (!self)
		return;
	release(sync_of(g), true);
	wake(g);
	sync_point();
}
void __cxa_guard_release(uint64_t *g) { guard_done(g, true); }
void __cxa_guard_abort(uint64_t *g) { guard_done(g, false); }

#define REAL(NAME) static decltype(&NAME) real; if (!real) real = reinterpret_cast<decltype(&NAME)>(dlsym(RTLD_NEXT, #NAME));
int pthread_mutex_lock(pthread_mutex_t *m)
{
	if (self) {
		lock(m, true);
		return 0;
	}
	REAL(pthread_mutex_lock)
	return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (self)
		return lock(m, false) ? 0 : EBUSY;
	REAL(pthread_mutex_trylock)
	return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (self) {
		unlock(m);
		return 0;
	}
	REAL(pthread_mutex_unlock)
	return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
	if (self) {
		lock(m, true);
		return 0;
	}
	REAL(pthread_rwlock_wrlock)
	return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
	if (self) {
		lock(m, true);
		return 0;
	}
	REAL(pthread_rwlock_rdlock)
	return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
	if (self) {
		unlock(m);
		return 0;
	}
	REAL(pthread_rwlock_unlock)
	return real(m);
}
int pthread_once(pthread_once_t *o, void (*fn)())
{
	volatile int *state = reinterpret_cast<volatile int *>(o);
	if (!self) {
		if (*state != 2) {
			fn();
			*state = 2;
		}
		return 0;
	}
	Sync *s = sync_of(o);
	sync_point();
	while (*state != 2 && s->owner)
		block(o);
	if (*state == 2) {
		acquire(s);
		return 0;
	}
	s->owner = self->id + 1;
	struct Undo
	{
		Sync *s;
		pthread_once_t *o;
		~Undo()
		{
			s->owner = 0;
			release(s, true);
			wake(o);
		}
	} undo = { s, o };
	fn();
	*state = 2;
	return 0;
}
int sched_yield()
{
	if (self) {
		int to = other_than(self->id);
		if (to >= 0)
			switch_to(to);
	}
	return 0;
}

}
