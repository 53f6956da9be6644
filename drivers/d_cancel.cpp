// Cancellable waits and sleeps under the controlled scheduler, virtual time.
#include "drv.h"
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/Thread.h>
using namespace stingray; using namespace drv;
#define NOW .i("now", vs::now_ms())
struct World { std::unique_ptr<CancellationToken> tok[12]; int nw; Mutex m; ConditionVariable cv; int left; bool joined[12], resetting[12]; };
static World* W;
// a token made of one or two plain tokens of the calling thread, joined and/or timed
struct Composite
{
	std::vector<int> toks; int dl; // dl: absolute deadline of the token, -1 = none
	std::unique_ptr<ICancellationToken*> dummy; DummyCancellationToken none;
	std::unique_ptr<TimedCancellationToken> inner, inner2, outer; std::unique_ptr<JoiningCancellationToken> join;
	const ICancellationToken* top;
	void limit(int to) { int d = vs::now_ms() + to; if (dl < 0 || d < dl) dl = d; }
	~Composite() { if (join) W->joined[toks[0]] = W->joined[toks[1]] = false; }
	explicit Composite(int t) : dl(-1), top(&none)
	{
		vs::no_preempt np; // the clock does not move while the deadlines are computed
		int kind = vs::rnd(0, 9), a = 2 * t, b = 2 * t + 1;
		static const int tos[] = { 0, 1, 5, 10, 20 };
		if (kind == 0) { }
		else if (kind <= 3) { toks.push_back(a); top = W->tok[a].get(); }
		else if (kind == 4) { int to = tos[vs::rnd(0, 4)]; limit(to); outer.reset(new TimedCancellationToken(TimeDuration(to))); top = outer.get(); return; }
		else if (W->resetting[a] || W->resetting[b]) { toks.push_back(a); top = W->tok[a].get(); }
		else
		{
			W->joined[a] = W->joined[b] = true;
			toks.push_back(a); toks.push_back(b);
			const ICancellationToken* f = W->tok[a].get(); const ICancellationToken* s = W->tok[b].get();
			if (kind == 8) { int to = tos[vs::rnd(0, 4)]; limit(to); inner.reset(new TimedCancellationToken(*f, TimeDuration(to))); f = inner.get(); }
			if (kind == 9) { int to = tos[vs::rnd(0, 4)]; limit(to); inner2.reset(new TimedCancellationToken(*s, TimeDuration(to))); s = inner2.get(); }
			join.reset(new JoiningCancellationToken(*f, *s)); top = join.get();
		}
		if (vs::chance(1, 3)) { int to = tos[vs::rnd(0, 4)]; limit(to); outer.reset(new TimedCancellationToken(*top, TimeDuration(to))); top = outer.get(); }
	}
};
static void wait(int t)
{
	Composite c(t); vs::point();
	bool own = vs::chance(1, 4) && (!c.toks.empty() || c.dl >= 0);
	std::unique_ptr<Mutex> pm; std::unique_ptr<ConditionVariable> pc; if (own) { pm.reset(new Mutex); pc.reset(new ConditionVariable); }
	Mutex& m = own ? *pm : W->m; ConditionVariable& cv = own ? *pc : W->cv;
	MutexLock l(m);
	call("wait").li("toks", c.toks).i("cv", own ? 10 + t : 1).i("dl", c.dl) NOW;
	ConditionWaitResult r = cv.Wait(m, *c.top);
	ret("wait").s("r", r.ToString()) NOW;
}
static void sleep(int t)
{
	Composite c(t); vs::point();
	int d = vs::rnd(0, 12); bool inf = (!c.toks.empty() || c.dl >= 0) && vs::chance(1, 4);
	if (c.toks.empty() && c.dl >= 0) inf = false;
	int now; { vs::no_preempt np; now = vs::now_ms(); call("sleep").li("toks", c.toks).i("dl", inf ? -1 : now + d).i("tdl", c.dl) NOW; }
	bool r = inf ? c.top->Sleep(null) : c.top->Sleep(TimeDuration(d));
	ret("sleep").i("r", r) NOW;
}
static void query(int t)
{
	Composite c(t); vs::no_preempt np;
	vs::ev("query").li("toks", c.toks).i("c", c.top->IsCancelled());
	vs::ev("timedout").i("dl", c.dl).i("r", c.top->IsTimedOut()) NOW;
	vs::ev("alive").li("toks", c.toks).i("dl", c.dl).i("r", bool(*c.top)) NOW;
}
static void cancel(int x, bool viaToken)
{
	call("cancel").i("x", x);
	if (viaToken) { Token k = W->tok[x]->GetCancellator(); k.Reset(); } else W->tok[x]->Cancel();
	ret("cancel").i("x", x);
}
static void reset(int x)
{
	// a token is not reset while it is a part of a joined token in use: the joined token cannot tell
	{ vs::no_preempt np; if (W->joined[x] || W->resetting[x]) return; W->resetting[x] = true; }
	call("reset").i("x", x);
	std::string r = guarded([&]{ W->tok[x]->Reset(); });
	ret("reset").i("x", x).s("r", r);
	W->resetting[x] = false;
}
static void notify() { MutexLock l(W->m); vs::ev("notify").i("cv", 1); W->cv.Broadcast(); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		Logger::SetLogLevel(LogLevel(LogLevel::Error));
		World w; W = &w; w.nw = vs::rnd(1, 2); w.left = w.nw; for (int i = 0; i < 12; ++i) w.joined[i] = w.resetting[i] = false;
		bool jit = vs::chance(1, 3), spur = vs::chance(1, 6); vs::set_time_jitter(jit); vs::set_spurious(spur);
		vs::ev("cfg").i("jit", jit).i("spur", spur);
		for (int i = 2; i < 2 + 2 * w.nw; ++i) w.tok[i].reset(new CancellationToken);
		int nc = vs::rnd(1, 2), last = 1 + 2 * w.nw;
		for (int t = 1; t <= w.nw; ++t) { int n = vs::rnd(1, 3); vs::spawn(t, [&, t, n]{
			for (int i = 0; i < n; ++i) { int r = vs::rnd(0, 9); if (r < 6) wait(t); else if (r < 9) sleep(t); else query(t); }
			vs::no_preempt np; --w.left; }); }
		for (int c = 0; c < nc; ++c) { int n = vs::rnd(1, 4); vs::spawn(11 + c, [&, n]{
			for (int i = 0; i < n; ++i)
			{
				int r = vs::rnd(0, 9);
				if (r < 4) cancel(vs::rnd(2, last), vs::chance(1, 4)); else if (r < 6) notify(); else if (r < 8) vs::sleep_ms(vs::rnd(1, 8)); else reset(vs::rnd(2, last));
			} }); }
		for (int c = 0; c < nc; ++c) vs::join(11 + c);
		auto idle = [&]{ if (jit || spur) return; vs::sleep_us(500); vs::ev("idle") NOW; vs::sleep_us(500); }; // everybody else acts at whole milliseconds
		for (int i = 0; i < 2; ++i) { vs::sleep_ms(vs::rnd(0, 11)); idle(); }
		for (int i = 0; ; ++i)
		{
			{ vs::no_preempt np; if (!w.left) break; }
			vs::sleep_ms(3); if (i == 2) idle();
			for (int x = 2; x <= last; ++x) if (!w.tok[x]->IsCancelled()) cancel(x, false);
			vs::sleep_ms(1); notify();
		}
		for (int t = 1; t <= w.nw; ++t) vs::join(t);
	});
}
