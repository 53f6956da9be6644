// ExecutionDeferrer over a Timer under the controlled scheduler, virtual time.
#include "drv.h"
#include <stingraykit/timer/Timer.h>
using namespace stingray; using namespace drv;
struct World { ExecutionDeferrerPtr d; int nextK, budget, nested; bool closing; };
static World* W;
#define NOW .i("now", vs::now_ms())
static void cancel() { call("cancel"); W->d->Cancel(); ret("cancel"); }
struct Body : public function_info<void()>
{
	int k, act, slp; std::vector<int> pad;
	void operator()() const
	{
		vs::ev("begin").i("k", k) NOW;
		vs::point();
		if (act)
		{
			bool go; { vs::no_preempt np; go = !W->closing && W->budget > 0; if (go) { ++W->nested; --W->budget; } }
			if (go) { cancel(); vs::no_preempt np; --W->nested; }
		}
		if (slp) vs::sleep_ms(slp);
		vs::point();
		if (pad.size() != 3 || pad[1] != k) vs::ev("corrupt").i("k", k);
		vs::ev("end").i("k", k) NOW;
	}
};
static void defer(int dflt)
{
	static const int tos[] = { 0, 1, 5, 5, 10 };
	Body b; { vs::no_preempt np; b.k = ++W->nextK; }
	b.act = vs::chance(1, 3); b.slp = vs::chance(1, 4) ? vs::rnd(1, 12) : 0; b.pad.assign(3, b.k);
	int to = tos[vs::rnd(0, 4)], per = vs::chance(1, 5) ? vs::rnd(3, 8) : 0; bool d = vs::chance(1, 3);
	if (d) { to = dflt; per = 0; }
	call("defer").i("k", b.k).i("to", to).i("per", per) NOW;
	if (d) W->d->Defer(b); else if (per) W->d->Defer(b, TimeDuration(to), TimeDuration(per)); else W->d->Defer(b, TimeDuration(to));
	ret("defer");
}
static void handler(const std::exception&) { vs::ev("handler"); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.nextK = w.nested = 0; w.closing = false; w.budget = vs::rnd(0, 2);
		bool jit = vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(true);
		vs::ev("cfg").i("jit", jit);
		int dflt = vs::rnd(1, 6);
		{
			Timer timer("t", null, &handler);
			w.d = make_shared_ptr<ExecutionDeferrer>(timer, TimeDuration(dflt));
			int nt = vs::rnd(1, 3), total = 0;
			std::vector<std::vector<int> > prog(nt + 1);
			for (int t = 1; t <= nt; ++t) for (int i = vs::rnd(1, 5); i > 0 && total < 9; --i, ++total) prog[t].push_back(vs::rnd(0, 99));
			for (int t = 1; t <= nt; ++t) vs::spawn(t, [&, t]{
				for (size_t i = 0; i < prog[t].size(); ++i) { int r = prog[t][i]; if (r < 20) cancel(); else if (r < 45) vs::sleep_ms(vs::rnd(1, 12)); else defer(dflt); }
			});
			for (int t = 1; t <= nt; ++t) vs::join(t);
			if (vs::chance(1, 2)) { vs::sleep_ms(vs::rnd(1, 40)); if (!jit) { vs::sleep_us(500); vs::ev("idle") NOW; vs::sleep_us(500); } }
			for (;;) { { vs::no_preempt np; w.closing = true; if (!w.nested) break; } vs::sleep_ms(1); }
			if (vs::chance(1, 2)) { call("close"); w.d.reset(); ret("close"); vs::sleep_ms(30); }
			else { call("close"); w.d.reset(); ret("close"); }
		}
		vs::sleep_ms(20);
	});
}
