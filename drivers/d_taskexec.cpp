// Task executors under the controlled scheduler: random client programs, API-level events.
#include "drv.h"
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/function/AsyncFunction.h>
using namespace stingray; using namespace drv;

struct Ctx
{
	ThreadTaskExecutorPtr tte; ThreadlessTaskExecutorPtr tle;
	TaskLifeToken* tok[3];
	CancellationToken cancel;
	int nextId;
	ITaskExecutor* exr; ITaskExecutor& ex() { return *exr; }
};
static Ctx* C;
static void nested(int what);
struct Plan { int k, tok; bool thr; int inner; };

static void body(const Plan& p)
{
	vs::ev("begin").i("k", p.k);
	vs::point();
	if (p.inner) nested(p.inner);
	if (vs::tid() == 0 || true) vs::point();
	if (p.thr) { vs::ev("throw").i("k", p.k); throw TestError(p.k); }
	vs::ev("end").i("k", p.k);
}
static void add(int tok, bool thr, int inner)
{
	Plan p; { vs::no_preempt np; p.k = ++C->nextId; } p.tok = tok; p.thr = thr; p.inner = inner;
	call("add").i("k", p.k).i("tok", tok).i("thr", thr);
	if (tok) C->ex().AddTask(Bind(&body, p), C->tok[tok]->GetExecutionTester());
	else C->ex().AddTask(Bind(&body, p));
	ret("add");
}
static void kill(int tok) { call("kill").i("tok", tok); C->tok[tok]->Release(); ret("kill"); }
static void run(bool canc)
{
	call("run").i("canc", canc);
	if (canc) C->tle->ExecuteTasks(C->cancel); else C->tle->ExecuteTasks();
	ret("run");
}
static void nested(int what)
{
	switch (what)
	{
	case 1: add(vs::rnd(0, 2), false, 0); break;
	case 2: kill(1); break;
	case 3: if (C->tle) run(false); break;
	case 4: if (C->tle) { call("clear"); C->tle->ClearTasks(); ret("clear"); } break;
	case 5: vs::sleep_ms(5); break;
	case 6: if (C->tle) { call("cancel"); C->cancel.Cancel(); ret("cancel"); } break;
	}
}
static void handler(const std::exception& ex)
{
	int k = -1; if (const TestError* e = dynamic_cast<const TestError*>(&ex)) k = e->k;
	vs::ev("handler").i("k", k);
}
struct Op { int kind, a, b, c; };

int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		bool threadless = vs::opti("threadless", 0);
		Ctx c; C = &c; c.nextId = 0;
		TaskLifeToken t1, t2; c.tok[1] = &t1; c.tok[2] = &t2;
		int prof = vs::rnd(0, 3) == 0;
		{ vs::ev e("cfg"); e.s("kind", threadless ? "threadless" : "thread"); }
		optional<TimeDuration> pt; if (prof) pt = TimeDuration::FromSeconds(10);
		vs::set_time_jitter(false);
		vs::set_spurious(true);
		if (threadless) c.tle = make_shared_ptr<ThreadlessTaskExecutor>("x", pt, &handler);
		else c.tte = make_shared_ptr<ThreadTaskExecutor>("x", pt, &handler);
		c.exr = threadless ? static_cast<ITaskExecutor*>(c.tle.get()) : static_cast<ITaskExecutor*>(c.tte.get());
		int nt = vs::rnd(1, 3), nops = 0;
		std::vector<std::vector<Op> > prog(nt + 1);
		for (int t = 1; t <= nt; ++t)
			for (int i = vs::rnd(1, 4); i > 0 && nops < 9; --i, ++nops)
			{
				Op o; int r = vs::rnd(0, 99);
				o.kind = r < (threadless ? 45 : 70) ? 0 : r < (threadless ? 55 : 85) ? 1 : threadless ? (r < 85 ? 2 : r < 93 ? 3 : 4) : 5;
				o.a = vs::chance(1, 2) ? 0 : vs::rnd(1, 2); o.b = vs::chance(1, 5); o.c = vs::chance(1, 3) ? vs::rnd(1, 6) : 0;
				prog[t].push_back(o);
			}
		for (int t = 1; t <= nt; ++t)
			vs::spawn(t, [&prog, t]{
				for (size_t i = 0; i < prog[t].size(); ++i)
				{
					Op& o = prog[t][i];
					switch (o.kind)
					{
					case 0: add(o.a, o.b, o.c); break;
					case 1: kill(o.a ? o.a : 1); break;
					case 2: run(o.b); break;
					case 3: call("clear"); C->tle->ClearTasks(); ret("clear"); break;
					case 4: call("cancel"); C->cancel.Cancel(); ret("cancel"); break;
					case 5: vs::sleep_ms(1); break;
					}
				}
			});
		for (int t = 1; t <= nt; ++t) vs::join(t);
		if (vs::chance(1, 3)) { vs::sleep_ms(1000); vs::ev("idle"); }
		if (threadless) { if (vs::chance(1, 2)) run(false); c.tle.reset(); }
		else { call("close"); c.tte.reset(); ret("close"); }
		t1.Release(); t2.Release();
	});
}
