// Once-only initialisation, exit of the process, and threads, under the controlled scheduler.
#include "drv.h"
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/call_once.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/PhoenixSingleton.h>
#include <memory>
using namespace stingray; using namespace drv;
static void c(const char* op, int a = 0) { call(op).i("a", a).i("at", vs::now_us()); }
static void rt(const char* op, int r = 0) { ret(op).i("r", r).i("at", vs::now_us()); }
static int g_k = 0, g_fail = 0;
static void construct(int& n)
{
	vs::ev("cb"); for (int i = vs::rnd(0, 2); i > 0; --i) vs::point();
	if (g_fail > 0) { --g_fail; vs::ev("ce").i("n", 0).i("ok", 0); throw TestError(7); }
	{ vs::no_preempt np; n = ++g_k; vs::ev("ce").i("n", n).i("ok", 1); }
	vs::point();
}
struct Obj { int n; Obj() { construct(n); } ~Obj() { vs::no_preempt np; vs::ev("db").i("n", n); n = -9; } };
struct Sing : public Singleton<Sing>, public Obj { };
STINGRAYKIT_DEFINE_ONCE_FLAG(g_flag);
static void onceFunc() { int n; construct(n); }
template <class F> static void inst(F f) { c("inst"); int r; try { r = f(); } catch (const std::exception&) { r = -1; } rt("inst", r); }
static void exitNow() { c("exit"); vs::run_atexit(); rt("exit"); }
static void threads(int n, std::function<void (int)> f) { for (int t = 1; t <= n; ++t) vs::spawn(t, [=]{ f(t); }); for (int t = 1; t <= n; ++t) vs::join(t); }
static void onceRun(int n)
{
	vs::ev("cfg").s("b", "once");
	threads(n, [](int) { for (int i = vs::rnd(1, 2); i > 0; --i) inst([]{ call_once(g_flag, &onceFunc); return 0; }); });
}
static void singRun(int n)
{
	vs::ev("cfg").s("b", "sing"); g_fail = vs::chance(1, 4);
	threads(n, [](int) {
		for (int i = vs::rnd(1, 3); i > 0; --i)
			if (vs::chance(1, 3)) { c("alive"); bool r = Singleton<Sing>::IsAlive(); rt("alive", r); }
			else inst([]{ return vs::chance(1, 2) ? Singleton<Sing>::Instance().n : Sing::ConstInstance().n; });
	});
	if (vs::chance(1, 2)) { inst([]{ return Sing::Instance().n; }); exitNow(); if (vs::chance(1, 2)) inst([]{ return Sing::Instance().n; }); c("alive"); bool r = Sing::IsAlive(); rt("alive", r); }
}
static void phxRun(int n)
{
	vs::ev("cfg").s("b", "phx"); g_fail = vs::rnd(0, 3) / 2 * vs::rnd(0, 2);
	for (int ph = vs::rnd(1, 2); ph > 0; --ph)
	{
		threads(n, [](int) { for (int i = vs::rnd(0, 3); i > 0; --i) inst([]{ return PhoenixSingleton<Obj>::Instance().n; }); });
		if (vs::chance(2, 3)) exitNow();
	}
}
static void safeRun(int n)
{
	vs::ev("cfg").s("b", "safe"); g_fail = vs::chance(1, 6);
	auto body = [](int) {
		std::vector<shared_ptr<Obj> > p;
		auto drop = [&](int i) { shared_ptr<Obj> x = p[i]; p.erase(p.begin() + i); c("drop"); x.reset(); rt("drop"); };
		for (int i = vs::rnd(1, 4); i > 0; --i)
			if (!p.empty() && vs::chance(1, 2)) drop(vs::rnd(0, p.size() - 1));
			else inst([&]{ shared_ptr<Obj> x = SafeSingleton<Obj>::Instance(); if (!x) return 0; p.push_back(x); return x->n; });
		for (auto& x : p) if (x->n != 1) rt("dead object", x->n);
		while (!p.empty()) drop(vs::rnd(0, p.size() - 1));
	};
	for (int t = 1; t <= n; ++t) vs::spawn(t, [=]{ body(t); });
	for (int i = vs::rnd(0, 20); i > 0; --i) vs::point();
	if (vs::chance(2, 3)) exitNow();
	for (int t = 1; t <= n; ++t) vs::join(t);
}
// ---- threads
static std::unique_ptr<Thread> g_th[4]; static int g_runs[4]; static ThreadId g_id[4]; static std::string g_name[4]; static int g_slots = 0;
static int newThread(int depth);
static void joinThread(int i)
{
	ThreadId id = g_th[i]->GetId(); std::string name = "thread " + std::to_string(i);
	c("join", i); g_th[i].reset(); rt("join", g_runs[i] == 1 && id == g_id[i] && id != Thread::GetCurrentThreadId() && name == g_name[i]);
}
struct Body : public function_info<void (const ICancellationToken&)>
{
	int i, what, depth;
	Body(int i_, int w, int d) : i(i_), what(w), depth(d) { }
	void operator () (const ICancellationToken& token) const
	{
		int i = this->i, what = this->what, depth = this->depth;
		++g_runs[i]; g_id[i] = Thread::GetCurrentThreadId(); g_name[i] = Thread::GetCurrentThreadName(); vs::ev("fb").i("i", i).i("at", vs::now_us());
		auto chk = [&]{ c("chk"); bool r = (bool)token; rt("chk", r); return r; };
		auto await = [&]{ c("chk"); { Mutex m; ConditionVariable cv; MutexLock l(m); cv.Wait(m, token); } rt("chk", 0); };
		int child = -1;
		switch (what)
		{
		case 0: break;
		case 1: await(); break;
		case 2: while (chk()) { token.Sleep(TimeDuration(vs::rnd(1, 4))); if (vs::chance(1, 3)) break; } break;
		case 3: chk(); vs::point(); chk(); break;
		case 4: child = depth ? newThread(depth - 1) : -1; if (vs::chance(1, 2)) chk(); break;
		default: vs::point();
		}
		if (child >= 0) joinThread(child);
		vs::ev("fe").i("i", i);
		if (vs::chance(1, 4)) throw TestError(5);
	}
};
static int newThread(int depth)
{
	int i; { vs::no_preempt np; if (g_slots == 4) return -1; i = g_slots++; }
	int to = vs::chance(1, 4) ? vs::rnd(0, 3) * 1000 : -1, w = vs::rnd(0, 5);
	c("new", i); vs::ev("new").i("to", to);
	optional<TimeDuration> tmo; if (to >= 0) tmo = TimeDuration::FromMicroseconds(to);
	g_th[i].reset(new Thread("thread " + std::to_string(i), Body(i, w, depth), tmo));
	rt("new"); return i;
}
static void thrRun(int n)
{
	vs::ev("cfg").s("b", "thr");
	threads(std::min(n, 2), [](int) {
		std::vector<int> own; auto join = [&]{ int x = vs::rnd(0, own.size() - 1), i = own[x]; own.erase(own.begin() + x); joinThread(i); };
		for (int i = vs::rnd(1, 2); i > 0; --i) { int s = newThread(1); if (s >= 0) own.push_back(s); if (vs::chance(1, 3)) vs::sleep_us(vs::rnd(1, 4) * 500); if (!own.empty() && vs::chance(1, 3)) join(); }
		while (!own.empty()) join();
	});
}
int main(int argc, char** argv)
{
	Logger::SetLogLevel(LogLevel::Error);
	return vs::main(argc, argv, []{
		int n = vs::rnd(1, 3);
		switch (vs::rnd(0, 8))
		{
		case 0: onceRun(n); break;
		case 1: case 2: singRun(n); break;
		case 3: case 4: phxRun(n); break;
		case 5: case 6: safeRun(n); break;
		default: thrRun(n);
		}
	});
}
