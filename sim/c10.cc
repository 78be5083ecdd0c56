// C10: tasks on real threads, each with components of its own, preempted at planned memory accesses
#include "prelude.hh"
#include "parts.hh"
#include "threads.hh"
#include "disk.hh"
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

enum { K_TASK = 1, K_PREEMPT, K_SYNC };
static const char *const kinds[] = { "none", "task part cfg seed ops style pattern", "preempt task at/2^20 target period count", "preempt_sync task at/2^20 target period count", nullptr };
enum { P_FIRST };
static const char *const pars[] = { "first", nullptr };
enum { MAX_OPS = 64, MAX_PLANNED = 64 };

// written by the child process that runs the tasks
struct Area
{
	bool finished;
	int nres[MAX_TASKS];
	uint64_t res[MAX_TASKS][MAX_OPS];
	bool damaged[MAX_TASKS];
	char damage[MAX_TASKS][64];
	ThreadReport report;
};
static Area *area;

static std::vector<int> usable(int group)
{
	std::vector<int> v;
	for (size_t i = 0; i < parts().size(); ++i)
		if (group < 0 || parts()[i].group == group)
			v.push_back(int(i));
	return v;
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	static const std::vector<int> all = usable(-1);
	int n = int(rng.pick({ 2, 2, 2, 3, 3, 4 }));
	plan.par = { rng.range(0, n - 1) };
	int base = all[size_t(index % all.size())];
	bool same = rng.chance(3, 4);
	uint64_t cfg = rng.next() >> 1;
	for (int i = 0; i < n; ++i) {
		int part = i == 0 || (same && !rng.chance(1, 6)) ? base : all[size_t(rng.range(0, int64_t(all.size()) - 1))];
		plan.steps.push_back(Step(K_TASK, part, rng.chance(1, 2) ? int64_t(cfg) : int64_t(rng.next() >> 1), int64_t(rng.next() >> 1),
			rng.scale(1, thorough ? 40 : 12), rng.range(0, 7), rng.pick({ 0, 0xff, 0x7f, 0x3c })));
	}
	if (rng.chance(1, 20))
		return;
	int m = int(rng.scale(1, thorough ? 40 : 12));
	bool bursts = rng.chance(1, 2);
	for (int i = int(rng.chance(1, 2) ? rng.range(1, 4) : 0); i > 0; --i) {
		int64_t from = rng.range(0, n - 1);
		plan.steps.push_back(Step(K_SYNC, from, rng.range(0, 1 << 20), (from + rng.range(1, n - 1)) % n, rng.scale(1, 8), rng.chance(1, 2) ? rng.scale(0, 100) : 0));
	}
	for (int i = 0; i < m; ++i) {
		int64_t at = rng.chance(1, 4) ? rng.scale(0, 1 << 20) : rng.range(0, 1 << 20);
		int64_t from = i ? rng.range(0, n - 1) : plan.par[P_FIRST];
		bool burst = bursts && rng.chance(1, 3);
		plan.steps.push_back(Step(K_PREEMPT, from, at, (from + rng.range(1, n - 1)) % n, burst ? rng.scale(1, 64) : 0, burst ? rng.scale(1, 400) : 0));
	}
}

struct Work { const Info *info; uint64_t cfg, seed; int ops, style; uint8_t pattern; };
static Work works[MAX_TASKS];
static int nworks, only = -1;

static void body(int t)
{
	int k = only < 0 ? t : only;
	const Work &w = works[k];
	PartBox box;
	preemption_point();
	box.create(*w.info, w.cfg, w.pattern);
	for (int i = 0; i < w.ops; ++i) {
		preemption_point();
		In in(mix(w.seed, uint64_t(i)), w.style);
		Out out;
		box->op(in, out);
		area->res[k][i] = out.hash;
		area->nres[k] = i + 1;
		if (out.damage && !area->damaged[k]) {
			area->damaged[k] = true;
			strncpy(area->damage[k], out.damage, sizeof area->damage[k] - 1);
		}
	}
	box.destroy();
}

static Preempt planned[MAX_PLANNED];
static int nplanned;

static void in_child(Ctx &ctx, int n, int first, const char *who)
{
	memset(area, 0, offsetof(Area, report) + offsetof(ThreadReport, list));
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		_exit(2);
	}
	if (pid == 0) {
		for (int s : { SIGPROF, SIGALRM, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTERM })
			signal(s, SIG_DFL);
		struct itimerval limit = { { 0, 0 }, { 10, 0 } };
		setitimer(ITIMER_PROF, &limit, nullptr);
		alarm(120);
		// threads that take turns do so quicker on one processor
		cpu_set_t cpus;
		CPU_ZERO(&cpus);
		CPU_SET(sched_getcpu(), &cpus);
		sched_setaffinity(0, sizeof cpus, &cpus);
		mallopt(M_ARENA_MAX, 1);
		mallopt(M_MMAP_THRESHOLD, 1 << 30);
		std::map<std::string, uint64_t> none;
		Ctx own;
		own.counters = &none;
		disk.reset(own);
		syscall_hook = [](int) { preemption_point(); };
		run_tasks(n, body, planned, only < 0 ? nplanned : 0, first, area->report);
		area->finished = true;
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGALRM))
		ctx.fail("hang", "%s does not end", who);
	if (WIFSIGNALED(status))
		ctx.fail("crash", "%s dies of signal %d", who, WTERMSIG(status));
	if (!area->finished)
		ctx.fail("exit", "%s ends the process with status %d", who, WEXITSTATUS(status));
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (!area) {
		void *p = mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED)
			abort();
		area = static_cast<Area *>(p);
	}
	nworks = nplanned = 0;
	for (const Step &s : plan.steps) {
		if (s.kind != K_TASK || nworks == MAX_TASKS)
			continue;
		Work &w = works[nworks];
		w.info = &parts()[size_t(uint64_t(s.a[0]) % parts().size())];
		w.cfg = uint64_t(s.a[1]);
		// nobody may write another one's file
		if (w.info->group == G_FILE)
			w.cfg = w.cfg * MAX_TASKS + uint64_t(nworks);
		w.seed = uint64_t(s.a[2]);
		w.ops = int(s.a[3] < 0 ? 0 : s.a[3] > MAX_OPS ? int64_t(MAX_OPS) : s.a[3]);
		w.style = int(s.a[4]);
		w.pattern = uint8_t(s.a[5]);
		++nworks;
	}
	if (!nworks)
		return;
	// each alone, in a process of its own
	uint64_t alone[MAX_TASKS][MAX_OPS], accesses[MAX_TASKS], syncs[MAX_TASKS];
	int nalone[MAX_TASKS];
	for (int k = 0; k < nworks; ++k) {
		only = k;
		in_child(ctx, 1, 0, "a task alone");
		nalone[k] = area->nres[k];
		memcpy(alone[k], area->res[k], sizeof alone[k]);
		accesses[k] = area->report.accesses[0];
		syncs[k] = area->report.syncs[0];
		if (area->report.deadlock)
			ctx.fail("deadlock", "a task alone waits for itself using %s", works[k].info->name);
		if (area->damaged[k])
			ctx.fail("damage", "%s: %s", works[k].info->name, area->damage[k]);
		ctx.log("alone", k, int64_t(accesses[k]), nalone[k] ? int64_t(alone[k][nalone[k] - 1]) : 0);
	}
	for (const Step &s : plan.steps) {
		if ((s.kind != K_PREEMPT && s.kind != K_SYNC) || nplanned == MAX_PLANNED)
			continue;
		Preempt &p = planned[nplanned++];
		p.task = int(uint64_t(s.a[0]) % uint64_t(nworks));
		p.sync = s.kind == K_SYNC;
		p.at = uint64_t(s.a[1] < 0 ? 0 : s.a[1]) * (p.sync ? syncs : accesses)[p.task] >> 20;
		p.target = int(uint64_t(s.a[2]) % uint64_t(nworks));
		p.period = uint64_t(s.a[3] < 0 ? 0 : s.a[3]);
		p.count = uint64_t(s.a[4] < 0 ? 0 : s.a[4]);
	}
	// a task's preemptions in the order of their instants
	std::stable_sort(planned, planned + nplanned, [](const Preempt &a, const Preempt &b) { return a.at < b.at; });
	only = -1;
	int first = int(uint64_t(plan.p(P_FIRST)) % uint64_t(nworks));
	in_child(ctx, nworks, first, "a set of tasks");
	const ThreadReport &rep = area->report;
	int listed = rep.switches < MAX_SWITCHES ? rep.switches : MAX_SWITCHES;
	for (int i = 0; i < listed; ++i) {
		ctx.log("switch", rep.list[i].from, rep.list[i].to, int64_t(rep.list[i].at));
		ctx.decide("switch", rep.list[i].from * MAX_TASKS + rep.list[i].to, int64_t(rep.list[i].at));
	}
	if (rep.switches) {
		ctx.faults += rep.switches;
		ctx.count("fault.preemption", uint64_t(rep.switches));
	}
	for (int k = 0; k < nworks; ++k) {
		ctx.ticks += rep.accesses[k];
		for (int i = 0; i < area->nres[k]; ++i)
			ctx.log("result", k, i, int64_t(area->res[k][i]));
	}
	uint64_t synced = 0;
	for (int k = 0; k < nworks; ++k)
		synced += rep.syncs[k];
	if (synced)
		ctx.count("state.runs with synchronisation");
	if (rep.lost)
		ctx.count("state.runs with unchecked accesses");
	bool equal = nworks > 1;
	for (int k = 1; k < nworks; ++k)
		equal &= works[k].info == works[0].info;
	if (equal)
		ctx.count("state.runs of equal components");
	if (rep.deadlock)
		ctx.fail("deadlock", "tasks using %s and %s wait for each other for ever", works[0].info->name, works[nworks > 1].info->name);
	if (rep.race)
		ctx.fail("race", "%s (tasks using %s, %s)", rep.what, works[0].info->name, works[nworks > 1].info->name);
	for (int k = 0; k < nworks; ++k) {
		for (int i = 0; i < nalone[k]; ++i)
			if (area->res[k][i] != alone[k][i])
				ctx.fail("result", "task %d using %s: operation %d gives something else than alone", k, works[k].info->name, i);
		if (area->damaged[k])
			ctx.fail("damage", "%s: %s", works[k].info->name, area->damage[k]);
		if (nalone[k] && rep.switches)
			ctx.progress = true;
	}
}

const Scenario sim::scenario = { "C10", kinds, generate, execute, nullptr, 0, pars };
