// Threads under a scheduler that decides every switch. Exactly one thread runs at any time; the library is compiled with
// a callback at every edge of its control flow (-fsanitize-coverage=trace-pc), at which a switch may happen.
#pragma once
#include "mc.hpp"
#include <functional>
#include <pthread.h>
#include <semaphore.h>
namespace thr
{
const int MAXT = 3;
struct State {
	sem_t                             go[MAXT], back;
	bool                              alive[MAXT];
	const std::function<void()>      *job[MAXT];
	int                               n = 0, cur = -1;
	std::function<bool()>             preempt; // asked at every point of the library: switch now?
	long                              points = 0;
	bool                              running = false, started = false;
};
inline State &S()
{
	static State *s = new State;
	return *s;
}
inline thread_local int  self   = -1;
inline thread_local bool inside = false; // in a call of the library
// another thread to run: chosen among the others alive
inline int other(int me)
{
	State &s = S();
	int    c[MAXT], n = 0;
	for (int i = 0; i < s.n; i++)
		if (i != me && s.alive[i])
			c[n++] = i;
	return n ? c[n > 1 ? mc::choose(n, "next thread") : 0] : -1;
}
inline void yield_to(int t)
{
	State &s  = S();
	int    me = self;
	bool   in = inside;
	s.cur     = t;
	sem_post(&s.go[t]);
	while (sem_wait(&s.go[me]))
		;
	inside = in;
}
inline void point()
{
	State &s = S();
	if (!s.running || self < 0 || !inside)
		return;
	inside = false;
	s.points++;
	if (s.preempt && s.preempt()) {
		int t = other(self);
		if (t >= 0)
			yield_to(t);
	}
	inside = true;
}
// between two calls: free choice of who goes on
inline void step()
{
	State &s = S();
	int    n = 0;
	for (int i = 0; i < s.n; i++)
		n += s.alive[i];
	if (n < 2)
		return;
	int k = mc::choose(n, "thread to go on"), t = -1;
	for (int i = 0; i < s.n; i++)
		if (s.alive[i] && k-- == 0)
			t = i;
	if (t != self)
		yield_to(t);
}
inline void *worker(void *p)
{
	State &s = S();
	self     = (int)(intptr_t)p;
	for (;;) {
		while (sem_wait(&s.go[self]))
			;
		(*s.job[self])();
		s.alive[self] = false;
		int t         = other(self);
		s.cur         = t;
		if (t >= 0)
			sem_post(&s.go[t]);
		else
			sem_post(&s.back);
	}
	return nullptr;
}
// run the jobs in threads of their own, starting with the chosen one, until all are done
inline void run(const std::vector<std::function<void()>> &jobs, std::function<bool()> preempt, int first = 0)
{
	State &s = S();
	if (!s.started) {
		s.started = true;
		sem_init(&s.back, 0, 0);
		for (int i = 0; i < MAXT; i++)
			sem_init(&s.go[i], 0, 0);
		for (int i = 0; i < MAXT; i++) {
			pthread_t      t;
			pthread_attr_t a;
			pthread_attr_init(&a);
			pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
			if (pthread_create(&t, &a, worker, (void *)(intptr_t)i))
				mc::fail("no thread");
			pthread_attr_destroy(&a);
		}
	}
	s.n       = (int)jobs.size();
	s.preempt = preempt;
	s.points  = 0;
	for (int i = 0; i < s.n; i++)
		s.alive[i] = true, s.job[i] = &jobs[(size_t)i];
	s.running = true;
	s.cur     = first;
	sem_post(&s.go[first]);
	while (sem_wait(&s.back))
		;
	s.running = false;
	s.preempt = nullptr;
}
// a call of the library
template <class F> auto call(F f)
{
	inside = true;
	struct Out {
		~Out() { inside = false; }
	} o;
	return f();
}
} // namespace thr
