/*
Driver of one property's simulator binary.

  sim batch VERIF_SEED WORKER NWORKERS RUNS SECONDS TIER OUT   run seeds WORKER, WORKER+NWORKERS, ...
  sim gen VERIF_SEED INDEX TIER FILE                           write the plan of one seed
  sim exec FILE [-v]                                           execute a plan in a child process
  sim min FILE OUT                                             minimise a failing plan
  sim hashes VERIF_SEED FROM COUNT TIER                        log hashes of some runs

Exit: 0 held, 10 violation, 3 nondeterminism, other: error.
*/

#include "core.hh"
#include <unistd.h>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <alloca.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unordered_set>
#include <algorithm>

using namespace sim;

namespace sim {

__attribute__((noinline)) void scribble_stack(uint8_t pattern)
{
	volatile uint8_t *p = (volatile uint8_t *)alloca(24 << 10);
	for (int i = 0; i < 24 << 10; ++i)
		p[i] = pattern;
}

}

struct Outcome
{
	bool bad = false;
	std::string cls, msg;
	uint64_t hash = 0, events = 0;
};

static Outcome run_plan(const Plan &plan, Ctx &ctx)
{
	Outcome o;
	try {
		scenario.execute(plan, ctx);
	} catch (Violation &v) {
		o.bad = true;
		o.cls = v.cls;
		o.msg = v.msg;
		for (char c : o.cls)
			ctx.fold(uint8_t(c));
	}
	o.hash = ctx.hash;
	o.events = ctx.events;
	return o;
}

static uint64_t seed_of(uint64_t verif_seed, uint64_t index)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (const char *p = scenario.id; *p; ++p)
		h = (h ^ uint8_t(*p)) * 0x100000001b3ull;
	return mix(mix(h, verif_seed), index);
}

static Plan plan_of(uint64_t verif_seed, uint64_t index, bool thorough)
{
	Rng rng(seed_of(verif_seed, index));
	Plan plan;
	scenario.generate(rng, plan, thorough, index);
	return plan;
}

// earlier executions in the same process that a replay needs (code under test that keeps global state)
struct Warm
{
	uint64_t seed = 0, first = 0, stride = 1, count = 0;
	bool thorough = false;
};
static Warm warm;

static void save_plan(const char *file, const Plan &plan, uint64_t verif_seed, uint64_t index, const Outcome *o, const char *note)
{
	FILE *f = fopen(file, "w");
	if (!f) {
		perror(file);
		exit(2);
	}
	fprintf(f, "# replay of property %s: bash /verif/replay.sh %s %s\n", scenario.id, scenario.id, file);
	if (note)
		fprintf(f, "# %s\n", note);
	fprintf(f, "property %s\nseed %llu %llu\n", scenario.id, (unsigned long long)verif_seed, (unsigned long long)index);
	if (warm.count)
		fprintf(f, "warm %llu %llu %llu %llu %s\n", (unsigned long long)warm.seed, (unsigned long long)warm.first, (unsigned long long)warm.stride, (unsigned long long)warm.count, warm.thorough ? "thorough" : "quick");
	if (o) {
		fprintf(f, "class %s\nhash %016llx\n", o->cls.c_str(), (unsigned long long)o->hash);
		std::string m = o->msg;
		std::replace(m.begin(), m.end(), '\n', ' ');
		fprintf(f, "message %s\n", m.c_str());
	}
	fprintf(f, "par");
	for (int64_t v : plan.par)
		fprintf(f, " %lld", (long long)v);
	fprintf(f, "\n");
	if (scenario.pars) {
		fprintf(f, "#");
		for (size_t i = 0; scenario.pars[i] && i < plan.par.size(); ++i)
			fprintf(f, " %s=%lld", scenario.pars[i], (long long)plan.par[i]);
		fprintf(f, "\n");
	}
	int nkinds = 0;
	while (scenario.kinds && scenario.kinds[nkinds])
		++nkinds;
	for (const Step &s : plan.steps) {
		fprintf(f, "step %d", s.kind);
		for (int64_t v : s.a)
			fprintf(f, " %lld", (long long)v);
		fprintf(f, " # %s\n", s.kind >= 0 && s.kind < nkinds ? scenario.kinds[s.kind] : "?");
	}
	fprintf(f, "end\n");
	fclose(f);
}

static bool load_plan(const char *file, Plan &plan, uint64_t &verif_seed, uint64_t &index, std::string &cls, uint64_t &hash)
{
	FILE *f = fopen(file, "r");
	if (!f)
		return false;
	char line[8192];
	bool ended = false;
	plan = Plan();
	verif_seed = index = hash = 0;
	while (fgets(line, sizeof line, f)) {
		if (!strncmp(line, "seed ", 5)) {
			unsigned long long a, b;
			if (sscanf(line + 5, "%llu %llu", &a, &b) == 2) {
				verif_seed = a;
				index = b;
			}
		} else if (!strncmp(line, "class ", 6)) {
			cls = line + 6;
			while (!cls.empty() && cls.back() == '\n')
				cls.pop_back();
		} else if (!strncmp(line, "warm ", 5)) {
			unsigned long long a, b, c, d;
			char t[32];
			if (sscanf(line + 5, "%llu %llu %llu %llu %31s", &a, &b, &c, &d, t) == 5) {
				warm.seed = a;
				warm.first = b;
				warm.stride = c;
				warm.count = d;
				warm.thorough = !strcmp(t, "thorough");
			}
		} else if (!strncmp(line, "hash ", 5)) {
			hash = strtoull(line + 5, nullptr, 16);
		} else if (!strncmp(line, "par", 3)) {
			char *p = line + 3, *e;
			for (;;) {
				long long v = strtoll(p, &e, 10);
				if (e == p)
					break;
				plan.par.push_back(v);
				p = e;
			}
		} else if (!strncmp(line, "step ", 5)) {
			long long v[7];
			if (sscanf(line + 5, "%lld %lld %lld %lld %lld %lld %lld", v, v+1, v+2, v+3, v+4, v+5, v+6) == 7)
				plan.steps.push_back(Step(int(v[0]), v[1], v[2], v[3], v[4], v[5], v[6]));
		} else if (!strncmp(line, "end", 3)) {
			ended = true;
		}
	}
	fclose(f);
	return ended;
}

static void limit_cpu(int seconds)
{
	struct rlimit rl = { rlim_t(seconds), rlim_t(seconds + 5) };
	setrlimit(RLIMIT_CPU, &rl);
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
}

// executes a plan in a forked child: crashes and hangs of the code under test become outcomes
static Outcome run_isolated(const Plan &plan, bool verbose, int cpu = 15)
{
	int fd[2];
	if (pipe(fd)) {
		perror("pipe");
		exit(2);
	}
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		exit(2);
	}
	if (!pid) {
		close(fd[0]);
		limit_cpu(cpu);
		alarm(cpu * 4);
		if (!verbose) {
			int null = open("/dev/null", O_WRONLY);
			dup2(null, 2);
		}
		for (uint64_t i = 0; i < warm.count; ++i) {
			Ctx before;
			run_plan(plan_of(warm.seed, warm.first + i * warm.stride, warm.thorough), before);
		}
		Ctx ctx;
		ctx.verbose = verbose;
		Outcome o = run_plan(plan, ctx);
		fflush(stdout);
		char buf[2048];
		int n = snprintf(buf, sizeof buf, "%d %016llx %llu %s\n%s\n", int(o.bad), (unsigned long long)o.hash, (unsigned long long)o.events, o.bad ? o.cls.c_str() : "-", o.msg.c_str());
		if (n > int(sizeof buf) - 1)
			n = sizeof buf - 1;
		ssize_t r = write(fd[1], buf, n);
		_exit(r == n ? 0 : 1);
	}
	close(fd[1]);
	std::string s;
	char buf[2048];
	ssize_t r;
	while ((r = read(fd[0], buf, sizeof buf)) > 0 || (r < 0 && errno == EINTR))
		if (r > 0)
			s.append(buf, r);
	close(fd[0]);
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR);
	Outcome o;
	if (WIFSIGNALED(status)) {
		int sig = WTERMSIG(status);
		o.bad = true;
		o.cls = sig == SIGXCPU || sig == SIGALRM || sig == SIGPROF || sig == SIGKILL ? "hang" : sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-fpe" : "crash-signal";
		o.msg = std::string("the code under test ended with signal ") + strsignal(sig);
		o.hash = 0;
		return o;
	}
	char cls[512] = "";
	unsigned long long h = 0, e = 0;
	int bad = 0;
	if (sscanf(s.c_str(), "%d %llx %llu %500s", &bad, &h, &e, cls) != 4) {
		o.bad = true;
		o.cls = "error";
		o.msg = "no result from child";
		return o;
	}
	o.bad = bad;
	o.hash = h;
	o.events = e;
	if (bad) {
		o.cls = cls;
		size_t nl = s.find('\n');
		o.msg = s.substr(nl + 1);
		while (!o.msg.empty() && o.msg.back() == '\n')
			o.msg.pop_back();
	}
	return o;
}

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

static int minimise(const char *in, const char *out)
{
	Plan plan;
	uint64_t vs, idx, hash;
	std::string cls;
	if (!load_plan(in, plan, vs, idx, cls, hash))
		return 2;
	Outcome first = run_isolated(plan, false);
	if (!first.bad)
		return 4;
	cls = first.cls;
	double t0 = now();
	int tries = 0;
	auto fails = [&](const Plan &p) {
		if (now() - t0 > 60)
			return false;
		++tries;
		Outcome o = run_isolated(p, false, cls == "hang" ? 2 : 15);
		return o.bad && o.cls == cls;
	};
	size_t before = plan.steps.size();
	bool changed = true;
	for (int round = 0; changed && round < 6; ++round) {
		changed = false;
		// delete chunks of steps
		for (size_t len = std::max<size_t>(1, plan.steps.size() / 2); len; len /= 2) {
			for (size_t at = 0; at < plan.steps.size();) {
				Plan q = plan;
				q.steps.erase(q.steps.begin() + at, q.steps.begin() + std::min(at + len, q.steps.size()));
				if (q.steps.size() < plan.steps.size() && fails(q)) {
					plan = q;
					changed = true;
				} else {
					at += len;
				}
			}
		}
		// shrink arguments
		for (size_t i = 0; i < plan.steps.size() && plan.steps.size() <= 200; ++i) {
			for (int k = 0; k < 6; ++k) {
				for (int tryout = 0; tryout < 3; ++tryout) {
					int64_t v = plan.steps[i].a[k];
					if (!v)
						break;
					int64_t w = tryout == 0 ? 0 : tryout == 1 ? v / 2 : v - (v > 0 ? 1 : -1);
					bool ok = false;
					for (int rep = 0; rep < 40 && w != v; ++rep) {
						Plan q = plan;
						q.steps[i].a[k] = w;
						if (!fails(q))
							break;
						plan = q;
						ok = changed = true;
						v = w;
						w = tryout == 0 ? v : tryout == 1 ? v / 2 : v - (v > 0 ? 1 : -1);
					}
					if (ok && tryout == 0)
						break;
				}
			}
		}
		// shrink parameters
		for (size_t i = 0; i < plan.par.size(); ++i) {
			int64_t lo = scenario.par_min && int(i) < scenario.par_min_n ? scenario.par_min[i] : 0;
			for (int tryout = 0; tryout < 2; ++tryout) {
				int64_t v = plan.par[i];
				if (v <= lo)
					break;
				int64_t w = tryout == 0 ? lo : lo + (v - lo) / 2;
				for (int rep = 0; rep < 40 && w < v; ++rep) {
					Plan q = plan;
					q.par[i] = w;
					if (!fails(q))
						break;
					plan = q;
					changed = true;
					v = w;
					w = lo + (v - lo) / 2;
				}
			}
		}
	}
	Outcome o = run_isolated(plan, false);
	if (!o.bad || o.cls != cls)
		return 4;
	char note[200];
	snprintf(note, sizeof note, "minimised from %zu to %zu steps in %d executions", before, plan.steps.size(), tries);
	save_plan(out, plan, vs, idx, &o, note);
	printf("%s\n", note);
	return 0;
}

static int batch(int, char **argv)
{
	uint64_t vs = strtoull(argv[2], nullptr, 10);
	uint64_t worker = strtoull(argv[3], nullptr, 10);
	uint64_t workers = strtoull(argv[4], nullptr, 10);
	uint64_t runs = strtoull(argv[5], nullptr, 10);
	double seconds = atof(argv[6]);
	bool thorough = !strcmp(argv[7], "thorough");
	std::string out = argv[8];

	// the run in progress, visible to the parent even if the code under test kills us
	int pfd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (pfd < 0 || ftruncate(pfd, 4096)) {
		perror("progress");
		return 2;
	}
	volatile uint64_t *progress = (volatile uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0);
	if (progress == MAP_FAILED)
		return 2;
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);

	std::map<std::string, uint64_t> counters;
	std::unordered_set<uint64_t> distinct, decisions;
	FILE *early = fopen((out + ".early").c_str(), "w");
	if (!early)
		return 2;
	uint64_t done = 0, nontrivial = 0, events = 0, ticks = 0, faulted = 0, doubled = 0, steps = 0;
	std::string samples;
	int nsamples = 0;
	double t0 = now();
	int rc = 0;
	for (uint64_t k = 0; k < runs; ++k) {
		uint64_t index = worker + k * workers;
		if (now() - t0 > seconds) {
			counters["stopped_by_time_limit"] = 1;
			break;
		}
		progress[0] = index + 1;
		progress[1] = uint64_t(now() * 1000);
		// a run that does not end kills the worker; the parent takes it from there
		struct itimerval limit = { { 0, 0 }, { 10, 0 } };
		setitimer(ITIMER_PROF, &limit, nullptr);
		Plan plan = plan_of(vs, index, thorough);
		Ctx ctx;
		ctx.counters = &counters;
		Outcome o = run_plan(plan, ctx);
		if (!o.bad && k % 40 == 0) {
			Ctx again;
			Outcome o2 = run_plan(plan, again);
			++doubled;
			if (o2.bad || o2.hash != o.hash || o2.events != o.events) {
				fprintf(stderr, "NONDETERMINISM property=%s index=%llu\n", scenario.id, (unsigned long long)index);
				return 3;
			}
		}
		if (index < 400 && !o.bad)
			fprintf(early, "%llu %016llx\n", (unsigned long long)index, (unsigned long long)o.hash);
		++done;
		steps += plan.steps.size();
		events += ctx.events;
		ticks += ctx.ticks;
		faulted += ctx.faults > 0;
		if (ctx.progress) {
			++nontrivial;
			distinct.insert(ctx.hash);
			decisions.insert(ctx.sig);
		}
		if (nsamples < 2 && ctx.progress && plan.steps.size() < 60) {
			char buf[256];
			snprintf(buf, sizeof buf, "%s{\"index\":%llu,\"plan_steps\":%zu,\"events\":%llu,\"faults_fired\":%d,\"log_hash\":\"%016llx\",\"plan\":\"", nsamples ? "," : "", (unsigned long long)index, plan.steps.size(), (unsigned long long)ctx.events, ctx.faults, (unsigned long long)ctx.hash);
			samples += buf;
			samples += "par";
			for (int64_t v : plan.par)
				samples += " " + std::to_string(v);
			int nk = 0;
			while (scenario.kinds && scenario.kinds[nk])
				++nk;
			for (const Step &s : plan.steps) {
				samples += std::string("; ") + (s.kind >= 0 && s.kind < nk ? scenario.kinds[s.kind] : "?");
				int last = 6;
				while (last > 0 && !s.a[last-1])
					--last;
				for (int i = 0; i < last; ++i)
					samples += " " + std::to_string(s.a[i]);
			}
			samples += "\"}";
			++nsamples;
		}
		if (o.bad) {
			save_plan((out + ".violation").c_str(), plan, vs, index, &o, nullptr);
			rc = 10;
			break;
		}
	}
	fclose(early);
	progress[0] = 0;
	struct itimerval off = {};
	setitimer(ITIMER_PROF, &off, nullptr);
	FILE *f = fopen((out + ".stats").c_str(), "w");
	if (!f)
		return 2;
	fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"events\":%llu,\"ticks\":%llu,\"faulted\":%llu,\"doubled\":%llu,\"plan_steps\":%llu,\"wall\":%.3f,\"samples\":[%s],\"counters\":{",
		(unsigned long long)done, (unsigned long long)nontrivial, distinct.size(), (unsigned long long)events, (unsigned long long)ticks,
		(unsigned long long)faulted, (unsigned long long)doubled, (unsigned long long)steps, now() - t0, samples.c_str());
	bool comma = false;
	for (auto &c : counters) {
		fprintf(f, "%s\"%s\":%llu", comma ? "," : "", c.first.c_str(), (unsigned long long)c.second);
		comma = true;
	}
	fprintf(f, "}}\n");
	fclose(f);
	f = fopen((out + ".hashes").c_str(), "wb");
	if (f) {
		for (uint64_t h : distinct)
			fwrite(&h, 8, 1, f);
		fclose(f);
	}
	f = fopen((out + ".decisions").c_str(), "wb");
	if (f) {
		for (uint64_t h : decisions)
			fwrite(&h, 8, 1, f);
		fclose(f);
	}
	return rc;
}

int main(int argc, char **argv)
{
	// addresses must not differ between executions of the same plan
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	if (argc >= 9 && !strcmp(argv[1], "batch"))
		return batch(argc, argv);
	if (argc >= 6 && !strcmp(argv[1], "gen")) {
		uint64_t vs = strtoull(argv[2], nullptr, 10), idx = strtoull(argv[3], nullptr, 10);
		Plan plan = plan_of(vs, idx, !strcmp(argv[4], "thorough"));
		save_plan(argv[5], plan, vs, idx, nullptr, nullptr);
		return 0;
	}
	if (argc >= 3 && !strcmp(argv[1], "exec")) {
		Plan plan;
		uint64_t vs, idx, hash;
		std::string cls;
		if (!load_plan(argv[2], plan, vs, idx, cls, hash)) {
			fprintf(stderr, "cannot load %s\n", argv[2]);
			return 2;
		}
		bool verbose = argc >= 4 && !strcmp(argv[3], "-v");
		Outcome o = run_isolated(plan, verbose);
		if (o.cls == "error")
			return 2;
		printf("RESULT %s hash=%016llx events=%llu class=%s\n%s\n", o.bad ? "violation" : "held", (unsigned long long)o.hash, (unsigned long long)o.events, o.bad ? o.cls.c_str() : "-", o.msg.c_str());
		return o.bad ? 10 : 0;
	}
	if (argc >= 6 && !strcmp(argv[1], "hashes")) {
		// in reverse order and in one process, to compare with the batch workers
		uint64_t vs = strtoull(argv[2], nullptr, 10), from = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
		for (uint64_t i = n; i-- > 0;) {
			Ctx ctx;
			Outcome o = run_plan(plan_of(vs, from + i, !strcmp(argv[5], "thorough")), ctx);
			printf("%llu %016llx\n", (unsigned long long)(from + i), (unsigned long long)o.hash);
		}
		return 0;
	}
	if (argc >= 4 && !strcmp(argv[1], "min"))
		return minimise(argv[2], argv[3]);
	fprintf(stderr, "usage\n");
	return 2;
}
