// Synchronisation primitives under the controlled scheduler.
#include "drv.h"
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/atomic.h>
#include <stingraykit/thread/atomic/Spinlock.h>
#include <stingraykit/thread/atomic/AtomicFlag.h>
#include <memory>
using namespace stingray; using namespace drv;
static void c(const char* op, int a = 0, int b = 0) { call(op).i("a", a).i("b", b).i("at", vs::now_us()); }
static void rt(const char* op, int r = 0) { ret(op).i("r", r).i("at", vs::now_us()); }
static void cfg(const char* b, int n = 0, int loose = 0, int v = 0) { vs::ev("cfg").s("b", b).i("n", n).i("loose", loose).i("v", v); }
static void threads(int n, std::function<void (int)> f) { for (int t = 1; t <= n; ++t) vs::spawn(t, [=]{ f(t); }); for (int t = 1; t <= n; ++t) vs::join(t); }
// ---- mutex and condition variable
static void mutexRun()
{
	cfg("mutex"); Mutex m; ConditionVariable cv; int flag = 0, waiters = 0; bool cond = vs::chance(2, 3);
	auto lock = [&]{ c("lock"); m.Lock(); rt("lock"); };
	auto unlock = [&]{ c("unlock"); int r = 0; try { m.Unlock(); } catch (const std::exception&) { r = -1; } rt("unlock", r); };
	auto section = [&](int d)
	{
		for (int i = 0; i <= d; ++i) lock();
		vs::point();
		if (d == 0 && vs::chance(1, 4)) { c("unlock"); { std::unique_ptr<MutexUnlock> u(new MutexUnlock(m)); rt("unlock"); vs::point(); c("lock"); } rt("lock"); }
		for (int i = 0; i <= d; ++i) unlock();
	};
	threads(vs::rnd(1, 3), [&](int t) {
		for (int i = vs::rnd(1, 3); i > 0; --i)
		{
			int w = vs::rnd(0, cond ? 9 : 4); if (t == 1 && (w == 5 || w == 6)) continue; // thread 1 never waits
			if (w < 3) section(vs::rnd(0, 2));
			else if (w == 3) { c("lock"); std::unique_ptr<MutexLock> l(new MutexLock(m)); rt("lock"); vs::point(); c("unlock"); l.reset(); rt("unlock"); }
			else if (w == 4) unlock(); // not the owner
			else if (w < 7)
			{
				lock(); if (!flag) { ++waiters; }
				while (!flag) { bool timed = vs::chance(1, 3); if (timed) { int us = vs::rnd(0, 3) * 1000; c("twait", 0, us); bool r = cv.TimedWait(m, TimeDuration::FromMicroseconds(us)); rt("twait", r); if (vs::chance(1, 2)) break; } else { c("wait"); cv.Wait(m); rt("wait", 1); } }
				unlock();
			}
			else { bool in = vs::chance(1, 2); lock(); flag = 1; if (in) { c("bcast"); cv.Broadcast(); rt("bcast"); } unlock(); if (!in) { c("bcast"); cv.Broadcast(); rt("bcast"); } }
		}
		lock(); flag = 1; c("bcast"); cv.Broadcast(); rt("bcast"); unlock();
	});
}
// ---- spin lock
static void spinRun()
{
	cfg("spin"); AtomicFlag::Type f = 0;
	threads(vs::rnd(1, 3), [&](int) { for (int i = vs::rnd(1, 2); i > 0; --i) { c("lock"); std::unique_ptr<Spinlock> l(new Spinlock(f)); rt("lock"); vs::point(); c("unlock"); l.reset(); rt("unlock"); } });
}
// ---- semaphore
static void semRun()
{
	int v = vs::rnd(0, 2); cfg("sem", 0, 0, v); std::unique_ptr<Semaphore> s(new Semaphore(v)); int n = vs::rnd(1, 4); bool lk = v > 0 && vs::chance(1, 3);
	std::vector<std::vector<int> > prog(n + 1);
	for (int t = 1; t <= n; ++t) for (int i = vs::rnd(1, 3); i > 0; --i) { int w = lk ? 0 : vs::rnd(1, 3); int x = w == 0 ? 0 : w == 1 ? 10 : w == 2 ? 20 + vs::rnd(0, 3) : 30 + vs::rnd(0, 2); prog[t].push_back(x); }
	auto post = [&](int k) { c("post", k); if (k == 1 && vs::chance(1, 2)) s->Signal(); else s->Signal(k); rt("post"); };
	for (int t = 1; t <= n; ++t) vs::spawn(t, [&, t]{
		for (int x : prog[t])
		{
			if (x == 0) { c("acq"); std::unique_ptr<SemaphoreLock> l(new SemaphoreLock(*s)); rt("acq", 1); vs::point(); c("post", 1); l.reset(); rt("post"); }
			else if (x == 10) { c("acq"); s->Wait(); rt("acq", 1); }
			else if (x < 30) { int us = (x - 20) * 1000; c("tacq", 0, us); bool r = s->TimedWait(TimeDuration::FromMicroseconds(us)); rt("tacq", r); }
			else post(x - 30);
		}
	});
	// timed waits take permits too: enough for everybody
	if (!lk) { int k = 0; for (auto& p : prog) for (int x : p) if (x == 10 || (x >= 20 && x < 30)) ++k; if (k > 0) { if (vs::chance(1, 2)) post(k); else for (; k > 0; --k) post(1); } }
	for (int t = 1; t <= n; ++t) vs::join(t);
	c("tacq"); { bool r = s->TimedWait(TimeDuration()); rt("tacq", r); }
}
// ---- barrier
static void barRun(bool spur)
{
	vs::set_spurious(spur);
	int n = vs::rnd(1, 4), k = n, rounds = vs::rnd(1, 3); if (vs::chance(1, 4)) { n = vs::rnd(1, 3); k = 2 * n; rounds = 1; }
	cfg("bar", n); Barrier b(n);
	threads(k, [&](int) { for (int i = 0; i < rounds; ++i) { c("bar"); bool r = b.Wait(); rt("bar", r); } });
	vs::set_spurious(false);
}
// ---- atomics
template <class Int> static void atomInt(int n)
{
	typedef BasicAtomicInt<Int> A; typename A::Type x = 100; cfg("atom", 0, 0, 100);
	auto one = [&]{
		int w = vs::rnd(0, 6), k = vs::rnd(0, 3), m = 98 + vs::rnd(0, 4);
		switch (w)
		{
		case 0: { c("inc"); int r = A::Inc(x); rt("inc", r); break; }
		case 1: { c("dec"); int r = A::Dec(x); rt("dec", r); break; }
		case 2: { c("add", k); int r = A::Add(x, k); rt("add", r); break; }
		case 3: { c("sub", k); int r = A::Sub(x, k); rt("sub", r); break; }
		case 4: { c("load"); int r = A::Load(x); rt("load", r); break; }
		case 5: { c("store", m); A::Store(x, m); rt("store"); break; }
		default: { int o = vs::chance(1, 2) ? 100 : m; c("cas", o, 98 + k); int r = A::CompareAndExchange(x, o, 98 + k); rt("cas", r); break; }
		}
	};
	threads(n, [&](int) { for (int i = vs::rnd(1, 4); i > 0; --i) one(); });
	c("load"); int r = A::Load(x); rt("load", r);
}
template <class T> static void atomObj(int n)
{
	atomic<T> x(T(100)); cfg("atom", 0, 0, 100);
	auto one = [&]{
		int w = vs::rnd(0, 7), k = vs::rnd(0, 3), m = 98 + vs::rnd(0, 4);
		switch (w)
		{
		case 0: { c("fadd", k); int r = x.fetch_add(k); rt("fadd", r); break; }
		case 1: { c("fsub", k); int r = x.fetch_sub(k); rt("fsub", r); break; }
		case 2: { c("inc"); int r = ++x; rt("inc", r); break; }
		case 3: { c("fadd", 1); int r = x++; rt("fadd", r); break; }
		case 4: { c("fsub", 1); int r = x--; rt("fsub", r); break; }
		case 5: { c("dec"); int r = --x; rt("dec", r); break; }
		case 6: { c("load"); int r = vs::chance(1, 2) ? T(x) : x.load(); rt("load", r); break; }
		default: { c("store", m); if (vs::chance(1, 2)) x.store(m); else x = T(m); rt("store"); }
		}
	};
	threads(n, [&](int) { for (int i = vs::rnd(1, 4); i > 0; --i) one(); });
	c("load"); int r = x.load(); rt("load", r);
}
struct Pair { int a, b; Pair(int v = 100) : a(v), b(v) { } };
static void atomOther(int n)
{
	int w = vs::rnd(0, 3);
	if (w == 0) // flag
	{
		AtomicFlag::Type f = 0; cfg("atom");
		threads(n, [&](int) { for (int i = vs::rnd(1, 4); i > 0; --i) { if (vs::chance(2, 3)) { c("tas"); bool r = AtomicFlag::TestAndSet(f); rt("tas", r); } else { c("clr"); AtomicFlag::Clear(f); rt("clr"); } } });
	}
	else if (w == 1)
	{
		atomic<bool> x(false); cfg("atom");
		threads(n, [&](int) { for (int i = vs::rnd(1, 4); i > 0; --i) { if (vs::chance(1, 2)) { int v = vs::rnd(0, 1); c("store", v); x = bool(v); rt("store"); } else { c("load"); bool r = x; rt("load", r); } } });
	}
	else if (w == 2) // a value of two words
	{
		atomic<Pair> x; x.store(Pair(100)); cfg("atom", 0, 0, 100);
		threads(n, [&](int) { for (int i = vs::rnd(1, 4); i > 0; --i) { if (vs::chance(1, 2)) { int v = vs::rnd(1, 5); c("store", v); x = Pair(v); rt("store"); } else { c("load"); Pair p = x; rt("load", p.a == p.b ? p.a : -7); } } });
	}
	else
	{
		SyncValue<Pair> x(Pair(100)); const SyncValue<Pair>& cx = x; cfg("atom", 0, 0, 100);
		threads(n, [&](int) {
			for (int i = vs::rnd(1, 4); i > 0; --i)
			{
				int k = vs::rnd(0, 7), v = vs::rnd(1, 5);
				if (k == 0) { c("store", v); x = Pair(v); rt("store"); }
				else if (k == 1) { c("store", v); *x = Pair(v); rt("store"); }
				else if (k == 2) { c("load"); Pair p = cx.Get(); rt("load", p.a == p.b ? p.a : -7); }
				else if (k == 3) { c("load"); int r; { SyncValue<Pair>::ConstLock l(cx); r = l->a; vs::point(); if (l->b != r) r = -7; } rt("load", r); }
				else if (k == 4) { c("load"); int r = cx->a; rt("load", r); }
				else if (k == 5) { c("add", v); int r; { SyncValue<Pair>::Lock l(x); r = (l->a += v); vs::point(); l->b += v; } rt("add", r); }
				else if (k == 6) { c("add", v); int r; { auto l(*x); Pair& p = l; r = p.a + v; vs::point(); l = Pair(r); vs::point(); if (l->a != r) r = -7; } rt("add", r); }
				else { c("load"); SyncValue<Pair>::ConstLock l(*cx); const Pair& p = l; int r = p.a; vs::point(); if (p.b != r) r = -7; ret("load").i("r", r).i("at", vs::now_us()); }
			}
		});
	}
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		bool spur = vs::opti("spur", 1) && vs::chance(1, 3); int n = vs::rnd(1, 3);
		switch (vs::rnd(0, 9))
		{
		case 0: case 1: case 2: mutexRun(); break;
		case 3: spinRun(); break;
		case 4: semRun(); break;
		case 5: case 6: barRun(spur); break;
		case 7: switch (vs::rnd(0, 3)) { case 0: atomInt<u32>(n); break; case 1: atomInt<s32>(n); break; case 2: atomInt<u64>(n); break; default: atomInt<s64>(n); } break;
		case 8: if (vs::chance(1, 2)) atomObj<u32>(n); else atomObj<s64>(n); break;
		default: atomOther(n);
		}
	});
}
