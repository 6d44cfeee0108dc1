// A cooperative scheduler: one thread runs at a time, switches at generated points
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include <functional>

static std::function<void(Case &, unsigned)> run_thread;

struct Thr {
	sem_t go;
	enum { READY, BLOCKED, DONE } st = READY;
	void *on = nullptr;
	pthread_t id;
};
static std::vector<std::unique_ptr<Thr>> thr;
static unsigned cur, nswitch;
static bool sched_on;
static std::map<void *, unsigned> owner;
struct Preempt {
	uint64_t gap;
	unsigned to;
};
static std::vector<Preempt> plan;
static size_t at_plan;
static uint64_t yields;
static thread_local int my_id = -1;

static bool runnable(unsigned t) {
	if (thr[t]->st == Thr::DONE) return false;
	if (thr[t]->st == Thr::BLOCKED && owner.count(thr[t]->on)) return false;
	return true;
}
static void switch_to(unsigned t) {
	unsigned me = cur;
	if (t == me) return;
	++nswitch;
	cur = t;
	thr[t]->st = Thr::READY;
	sem_post(&thr[t]->go);
	if (thr[me]->st != Thr::DONE)
		while (sem_wait(&thr[me]->go)) {}
}
// the first that can run, beginning with t
static int next_from(unsigned t) {
	for (unsigned k = 0; k < thr.size(); ++k) {
		unsigned x = (t + k) % thr.size();
		if (x != cur && runnable(x)) return x;
	}
	return -1;
}
// only points at one of the mutexes count (the n-th that was met), or all
static int only_mutex = -1;
static std::vector<const void *> met;
static void on_yield(const char *, const void *o) {
	if (!sched_on || my_id < 0) return;
	++yields;
	if (only_mutex >= 0) {
		if (!o) return;
		size_t i = std::find(met.begin(), met.end(), o) - met.begin();
		if (i == met.size()) met.push_back(o);
		if ((int)i != only_mutex) return;
	}
	if (at_plan >= plan.size()) return;
	if (plan[at_plan].gap) {
		--plan[at_plan].gap;
		return;
	}
	unsigned to = plan[at_plan++].to;
	int t = next_from(to % thr.size());
	int e = errno;
	if (t >= 0) switch_to(t);
	errno = e;
}
static int on_lock(void *m) {
	if (!sched_on || my_id < 0) return 1;
	int e = errno;
	for (;;) {
		auto it = owner.find(m);
		if (it == owner.end()) break;
		if (it->second == cur) g_case->fail("thread %u locks a mutex it holds: deadlock", cur);
		thr[cur]->st = Thr::BLOCKED;
		thr[cur]->on = m;
		int t = next_from(it->second);
		if (t < 0) g_case->fail("deadlock: no thread can run, thread %u waits for a mutex of thread %u", cur, it->second);
		switch_to(t);
		thr[cur]->st = Thr::READY;
	}
	owner[m] = cur;
	errno = e;
	return 0;
}
static int on_unlock(void *m) {
	if (!sched_on || my_id < 0) return 1;
	auto it = owner.find(m);
	if (it == owner.end() || it->second != cur) g_case->fail("thread %u unlocks a mutex it does not hold", cur);
	owner.erase(it);
	return 0;
}
static void *body(void *a) {
	unsigned t = (unsigned)(uintptr_t)a;
	while (sem_wait(&thr[t]->go)) {}
	my_id = t;
	run_thread(*g_case, t);
	for (auto &o : owner)
		if (o.second == t) g_case->fail("thread %u ends and holds a mutex", t);
	my_id = -1;
	thr[t]->st = Thr::DONE;
	int n = next_from((t + 1) % thr.size());
	if (n >= 0) switch_to(n);
	else
		for (size_t q = 0; q < thr.size(); ++q)
			if (thr[q]->st != Thr::DONE) g_case->fail("deadlock: thread %zu waits for ever", q);
	return nullptr;
}

// generates a schedule and runs nt threads of it
static void run_schedule(Case &c, unsigned nt) {
	uint64_t budget = 60 + c.sized(40000);
	unsigned np = 1 + (c.chance(1, 2) ? c.draw(8) : c.draw(80));
	unsigned style = c.draw(3);
	if (c.chance(1, 3)) {
		only_mutex = c.draw(6);
		budget = c.chance(1, 2) ? 60 : 600;
		c.label("preempted at one mutex");
	}
	for (unsigned i = 0; i < np; ++i) {
		Preempt p;
		p.gap = style == 0 ? c.sized(budget / np * 2) : style == 1 ? c.draw(budget / np * 2 + 1) : c.sized(200);
		p.to = c.draw(nt);
		plan.push_back(p);
	}
	for (unsigned t = 0; t < nt; ++t) {
		thr.emplace_back(new Thr);
		sem_init(&thr[t]->go, 0, 0);
	}
	vf_yield = on_yield;
	sched_on = true;
	vf_sched_lock = on_lock;
	vf_sched_unlock = on_unlock;
	for (unsigned t = 0; t < nt; ++t)
		if (pthread_create(&thr[t]->id, nullptr, body, (void *)(uintptr_t)t)) c.fail("pthread_create");
	cur = c.draw(nt);
	sem_post(&thr[cur]->go);
	for (unsigned t = 0; t < nt; ++t) pthread_join(thr[t]->id, nullptr);
	sched_on = false;
	vf_sched_lock = vf_sched_unlock = nullptr;
	vf_yield = nullptr;
	CHECK(c, owner.empty(), "a mutex is held at the end");
	c.count(yields);
	c.note("%u switches at %zu of %u planned points, %llu points passed", nswitch, at_plan, np, (unsigned long long)yields);
	if (at_plan >= 10) c.label("10 or more preemptions");
	if (nt == 4) c.label("4 threads");
}
