/*
Cooperative tasks: one runs at a time, and which one continues at a yield point is decided by the plan.
*/

#pragma once

#include "core.hh"
#include <cstdlib>
#include <functional>
#include <memory>
#include <exception>
#include <sys/mman.h>
#include <ucontext.h>

namespace sim {

class Coro
{
	struct Task
	{
		ucontext_t ctx;
		char *stack = nullptr;
		std::function<void()> body;
		bool done = false, blocked = false;
	};
	enum { STACK = 256 << 10 };
	std::vector<std::unique_ptr<Task>> tasks;
	std::map<int64_t, int> switches; // yield number -> task
	ucontext_t home;
	int cur = -1;
	int64_t yields = 0, taken = 0;
	std::exception_ptr error;
	Ctx &ctx;
	static Coro *&active() { static Coro *a; return a; }
	static std::vector<char *> &pool() { static std::vector<char *> p; return p; }
	static void entry()
	{
		Coro *s = active();
		Task *t = s->tasks[size_t(s->cur)].get();
		try {
			t->body();
		} catch (...) {
			s->error = std::current_exception();
		}
		t->done = true;
		swapcontext(&t->ctx, &s->home);
		abort();
	}
	bool runnable(int i) const { return i >= 0 && i < int(tasks.size()) && !tasks[size_t(i)]->done && !tasks[size_t(i)]->blocked; }
	int pick_next() const
	{
		for (int k = 1; k <= int(tasks.size()); ++k)
			if (runnable((cur + k) % int(tasks.size())))
				return (cur + k) % int(tasks.size());
		return -1;
	}
	void go(int next)
	{
		Task *from = tasks[size_t(cur)].get();
		cur = next;
		++taken;
		ctx.log("switch", next, yields);
		ctx.decide("switch", next, yields);
		swapcontext(&from->ctx, &tasks[size_t(next)]->ctx);
	}
public:
	explicit Coro(Ctx &ctx) : ctx(ctx) {}
	~Coro()
	{
		for (auto &t : tasks)
			if (t->stack)
				pool().push_back(t->stack);
		if (active() == this)
			active() = nullptr;
	}
	int id() const { return cur; }
	static Coro *current() { return active(); }
	void add(std::function<void()> body)
	{
		std::unique_ptr<Task> t(new Task);
		t->body = body;
		if (pool().empty()) {
			t->stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (t->stack == MAP_FAILED)
				abort();
		} else {
			t->stack = pool().back();
			pool().pop_back();
		}
		getcontext(&t->ctx);
		t->ctx.uc_stack.ss_sp = t->stack;
		t->ctx.uc_stack.ss_size = STACK;
		t->ctx.uc_link = nullptr;
		makecontext(&t->ctx, entry, 0);
		tasks.push_back(std::move(t));
	}
	void plan_switch(int64_t at, int task) { switches[at] = task; }
	// a point where another task may continue
	void yield()
	{
		int64_t at = yields++;
		auto it = switches.find(at);
		if (it == switches.end())
			return;
		int next = it->second % int(tasks.size());
		if (next != cur && runnable(next))
			go(next);
	}
	// waits until the condition holds; false if nobody else can make it hold
	bool wait(const std::function<bool()> &cond)
	{
		while (!cond()) {
			int me = cur, next = -1;
			for (int k = 1; k < int(tasks.size()); ++k)
				if (runnable((me + k) % int(tasks.size()))) {
					next = (me + k) % int(tasks.size());
					break;
				}
			if (next < 0)
				return false;
			++yields;
			go(next);
			if (stuck > 1000000)
				return false;
			++stuck;
		}
		return true;
	}
	int64_t stuck = 0;
	int64_t yield_count() const { return yields; }
	int64_t switch_count() const { return taken; }
	void run()
	{
		active() = this;
		cur = int(tasks.size()) - 1;
		for (;;) {
			int next = pick_next();
			if (next < 0)
				break;
			cur = next;
			ctx.log("run", next, yields);
			swapcontext(&home, &tasks[size_t(next)]->ctx);
			if (error) {
				active() = nullptr;
				std::rethrow_exception(error);
			}
		}
		active() = nullptr;
	}
};

}
