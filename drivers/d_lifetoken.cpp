// Life tokens, cancellable functions, async functions with futures.
#include "drv.h"
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/future.h>
using namespace stingray; using namespace drv;

struct Slot { TaskLifeHolder holder; TaskLifeToken token; Mutex m; int gen; bool isTok; bool busy; int uses; };
struct World { Slot s[3]; int nextK, budget; ThreadTaskExecutorPtr ex; std::vector<std::pair<int, future<int> > > futs; std::vector<int> futk; };
static World* W;
static void action(int i);
struct V : public function_info<void()> { int k, i, thr, act; void operator()() const; };
struct R : public function_info<int()> { int k, i, thr, act; int operator()() const; };
template <class F> static void body(const F& f)
{
	vs::ev("begin").i("k", f.k); vs::point();
	if (f.act) action(f.i);
	vs::point();
	vs::ev("end").i("k", f.k).s("r", f.thr ? "err" : "ok");
	if (f.thr) throw TestError(f.k);
}
void V::operator()() const { body(*this); }
int R::operator()() const { body(*this); return k; }
template <class F> static F mk(int i) { F f; vs::no_preempt np; f.k = ++W->nextK; f.i = i; f.thr = vs::chance(1, 6); f.act = W->budget > 0 && vs::chance(1, 2) ? (W->budget--, 1) : 0; return f; }
static void grab(int i, FutureExecutionTester& t, int& g) { vs::no_preempt np; Slot& s = W->s[i]; g = s.gen; t = s.isTok ? s.token.GetExecutionTester() : s.holder.GetExecutionTester(); }
static void exec(int i)
{
	FutureExecutionTester t(null); int g; grab(i, t, g);
	if (vs::chance(1, 2))
	{
		V f = mk<V>(i); function<void()> c = MakeCancellableFunction(f, t);
		vs::point();
		call("exec").i("k", f.k).i("g", g);
		std::string r = "ok"; try { c(); } catch (const TestError&) { r = "err"; } catch (const std::exception&) { r = "cancelled"; }
		ret("exec").s("r", r).i("v", 1);
	}
	else
	{
		R f = mk<R>(i); function<int()> c = MakeCancellableFunction(f, t);
		vs::point();
		call("exec").i("k", f.k).i("g", g);
		std::string r = "ok"; try { if (c() != f.k) r = "bad"; } catch (const TestError&) { r = "err"; } catch (const std::exception&) { r = "cancelled"; }
		ret("exec").s("r", r).i("v", 0);
	}
}
static void async(int i)
{
	FutureExecutionTester t(null); int g; grab(i, t, g);
	R f = mk<R>(i);
	call("async").i("k", f.k).i("g", g);
	future<int> fu = MakeAsyncFunction(ITaskExecutorPtr(W->ex), f, t)();
	vs::no_preempt np; W->futs.push_back(std::make_pair(f.k, fu));
	ret("async").i("k", f.k);
}
// the current generation may be released by one thread at a time; Reset installs a new generation
static void release(int i, bool reset)
{
	Slot& s = W->s[i];
	{ vs::no_preempt np; if (s.busy || s.uses <= 0) return; if (reset) s.uses--; s.busy = true; call("release").i("g", s.gen); }
	// the holder is replaced by Reset, so testers must not be taken meanwhile: make the replacement invisible
	if (s.isTok) s.token.Release(); else s.holder.Release();
	ret("release");
	if (reset) { vs::no_preempt np; if (s.isTok) s.token.Reset(); else s.holder.Reset(); ++s.gen; }
	s.busy = false;
}
static void action(int i)
{
	int r = vs::rnd(0, 9);
	if (r < 4) release(i, vs::chance(1, 2));
	else if (r < 6 && i < 2) release(i + 1, vs::chance(1, 2));
	else if (r < 9) exec(vs::rnd(i, 2));
	else async(vs::rnd(i, 2));
}
static void exh(const std::exception&) { vs::ev("exh"); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.nextK = 0; w.budget = vs::rnd(0, 4);
		vs::set_time_jitter(false);
		for (int i = 0; i < 3; ++i) { w.s[i].gen = i * 100 + 1; w.s[i].isTok = vs::chance(1, 2); w.s[i].busy = false; w.s[i].uses = 2; }
		bool as = vs::chance(1, 2);
		w.ex = make_shared_ptr<ThreadTaskExecutor>("x", null, &exh);
		int nt = vs::rnd(1, 3);
		std::vector<std::vector<int> > prog(nt + 1);
		for (int t = 1; t <= nt; ++t) for (int i = vs::rnd(1, 4); i > 0; --i) prog[t].push_back(vs::rnd(0, 99));
		int hi = vs::rnd(0, 2);
		for (int t = 1; t <= nt; ++t) vs::spawn(t, [&, t]{
			for (size_t i = 0; i < prog[t].size(); ++i)
			{
				int r = prog[t][i], o = r % (hi + 1);
				if (r < 40) exec(o); else if (as && r < 65) async(o); else if (r < 95) release(o, r % 2); else vs::sleep_ms(1);
			}
		});
		for (int t = 1; t <= nt; ++t) vs::join(t);
		vs::sleep_ms(1000);
		w.ex.reset();
		std::vector<std::pair<int, future<int> > > futs; { vs::no_preempt np; futs.swap(w.futs); }
		for (size_t i = 0; i < futs.size(); ++i)
		{
			std::string r; if (!futs[i].second.is_ready()) r = "none";
			else try { r = futs[i].second.get() == futs[i].first ? "ok" : "bad"; } catch (const BrokenPromise&) { r = "broken"; } catch (const std::exception& ex) { r = std::string(ex.what()).find("roken") != std::string::npos ? "broken" : "err"; }
			vs::ev("fut").i("k", futs[i].first).s("r", r);
		}
		for (int i = 0; i < 3; ++i) { w.s[i].token.Release(); w.s[i].holder.Release(); }
	});
}
