// Thread pool under the controlled scheduler, virtual time.
#include "drv.h"
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
using namespace stingray; using namespace drv;
#define NOW .i("now", vs::now_ms())
struct World { ThreadPool* pool; CancellationToken cancel[4]; int next, max, until, inq, base; bool closing; };
static World* W;
static void queue(int how, int inner);
static void nothing(const ICancellationToken&) { }
struct Plan { int k, dur, inner; bool thr, untilCancel; };
static void body(const Plan& p, const ICancellationToken& token)
{
	vs::ev("begin").i("k", p.k);
	vs::point();
	if (p.inner)
	{
		bool go; { vs::no_preempt np; go = !W->closing; if (go) ++W->inq; }
		if (go) { queue(p.inner - 1, 0); vs::no_preempt np; --W->inq; }
	}
	if (p.untilCancel) { while (token) token.Sleep(null); vs::ev("stopped").i("k", p.k).i("c", token.IsCancelled()); }
	else if (p.dur) token.Sleep(TimeDuration(p.dur));
	if (p.thr) { vs::ev("throw").i("k", p.k); throw TestError(p.k); }
	vs::ev("end").i("k", p.k);
}
static void handler(const std::exception& ex)
{
	int k = -1; if (const TestError* e = dynamic_cast<const TestError*>(&ex)) k = e->k;
	vs::ev("handler").i("k", k);
}
static void queue(int how, int inner)
{
	Plan p;
	{ vs::no_preempt np; p.k = ++W->next; }
	static const int durs[] = { 0, 0, 1, 3, 5, 12, 25 };
	p.dur = durs[vs::rnd(0, 6)]; p.inner = inner; p.thr = vs::chance(1, 5); p.untilCancel = vs::chance(1, 12);
	if (p.untilCancel) { p.thr = false; vs::no_preempt np; if (W->until + 1 >= W->max) p.untilCancel = false; else ++W->until; } // one thread always becomes free
	const ThreadPool::Task task = Bind(&body, p, _1);
	if (how == 0) { call("try").i("k", p.k).i("thr", p.thr); bool r = W->pool->TryQueue(task); ret("try").s("r", r ? "ok" : "no"); }
	else if (how == 1) { call("queue").i("k", p.k).i("thr", p.thr); bool ok = true; try { W->pool->Queue(task); } catch (const std::exception&) { ok = false; } ret("queue").s("r", ok ? "ok" : "no"); }
	else if (how == 2) { call("can"); bool r = W->pool->CanQueue(); ret("can").s("r", r ? "ok" : "no"); }
	else
	{
		int tk = vs::rnd(0, 3), to = durs[vs::rnd(2, 6)];
		std::unique_ptr<TimedCancellationToken> timed; DummyCancellationToken dummy; const ICancellationToken* token = &dummy;
		int dl = -1, canc = 0;
		if (tk == 1) { token = &W->cancel[vs::tid()]; canc = vs::tid(); }
		{
			vs::no_preempt np;
			if (tk >= 2) { dl = vs::now_ms() + to; canc = tk == 3 ? vs::tid() : 0; timed.reset(tk == 3 ? new TimedCancellationToken(W->cancel[vs::tid()], TimeDuration(to)) : new TimedCancellationToken(TimeDuration(to))); token = timed.get(); }
			call("wait").i("k", p.k).i("thr", p.thr).i("dl", dl).i("canc", canc);
		}
		const char* r = "ok";
		try { W->pool->WaitQueue(task, *token); }
		catch (const OperationCancelledException&) { r = "cancelled"; }
		catch (const TimeoutException&) { r = "timeout"; }
		ret("wait").s("r", r) NOW;
	}
}
static void cancel(int x) { call("cancel").i("x", x); W->cancel[x].Cancel(); ret("cancel").i("x", x); }
struct Op { int kind, a, b; };
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.next = 0; w.closing = false;
		vs::set_time_jitter(false); vs::set_spurious(vs::chance(1, 2));
		int max = vs::rnd(1, 3), idle = vs::chance(2, 3) ? vs::rnd(1, 10) : 0;
		{ vs::ev e("cfg"); e.i("max", max).i("idle", idle); }
		{ Thread warm("w", &nothing); } // the destructor of a thread starts the profiler thread
		int base = vs::lib_threads();
		optional<TimeDuration> it; if (idle) it = TimeDuration(idle);
		std::unique_ptr<ThreadPool> pool(new ThreadPool("p", max, null, it, &handler));
		w.pool = pool.get(); w.max = max; w.until = w.inq = 0; w.base = base;
		int nt = vs::rnd(1, 3), nops = 0;
		std::vector<std::vector<Op> > prog(nt + 1);
		for (int t = 1; t <= nt; ++t)
			for (int i = vs::rnd(1, 4); i > 0 && nops < 8; --i, ++nops)
			{
				Op o; int r = vs::rnd(0, 99);
				o.kind = r < 25 ? 0 : r < 40 ? 1 : r < 45 ? 2 : r < 70 ? 3 : r < 92 ? 4 : 5;
				o.a = vs::rnd(1, 15); o.b = vs::chance(1, 4) ? 1 + (vs::chance(1, 2) ? 0 : 1) : 0;
				prog[t].push_back(o);
			}
		for (int t = 1; t <= nt; ++t)
			vs::spawn(t, [&prog, t]{
				for (size_t i = 0; i < prog[t].size(); ++i)
				{
					Op& o = prog[t][i];
					switch (o.kind)
					{
					case 0: case 1: case 2: case 3: queue(o.kind, o.b); break;
					case 4: vs::sleep_ms(o.a); break;
					case 5: cancel(vs::rnd(1, 3)); break;
					}
				}
			});
		bool spur0 = vs::chance(2, 3);
		if (spur0)
		{
			vs::set_spurious(false);
			for (int i = vs::rnd(1, 3); i > 0; --i)
			{
				vs::sleep_ms(vs::rnd(1, 30)); vs::sleep_us(500);
				vs::ev("idle").i("thr", vs::lib_threads() - w.base) NOW;
				vs::sleep_us(500);
			}
		}
		if (vs::chance(1, 3)) cancel(vs::rnd(1, 3));
		for (int t = 1; t <= nt; ++t) vs::join(t);
		if (spur0 && vs::chance(1, 2)) { vs::sleep_ms(60); vs::sleep_us(500); vs::ev("idle").i("thr", vs::lib_threads() - w.base) NOW; vs::sleep_us(500); }
		{ vs::no_preempt np; w.closing = true; }
		while (w.inq) vs::sleep_us(100);
		call("close"); pool.reset(); ret("close").i("thr", vs::lib_threads() - w.base);
		for (int i = 0; i < 4; ++i) w.cancel[i].Cancel();
	});
}
