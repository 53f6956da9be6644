// Signals under the controlled scheduler.  mode=sync | pop | async
#include "drv.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
using namespace stingray; using namespace drv;

typedef function<void(int)> Slot;
struct ISig
{
	virtual ~ISig() { }
	virtual void inv(int v) = 0;
	virtual void set(int v, int& state) = 0;
	virtual Token connect(const Slot& s, bool scs) = 0;
	virtual Token aconnect(const ITaskExecutorPtr& e, const Slot& s, bool scs) = 0;
	virtual void scs(const Slot& s) = 0;
	virtual function<void(int)> invoker() = 0;
};
template <class S, bool Locks> struct Locker { static void set(S& s, int v, int& st) { signal_locker l(s); st = v; s(v); } };
template <class S> struct Locker<S, false> { static void set(S& s, int v, int& st) { st = v; s(v); } };
template <class S, bool Locks> struct Sig : ISig
{
	S s;
	template <class... A> Sig(A&&... a) : s(std::forward<A>(a)...) { }
	void inv(int v) override { s(v); }
	void set(int v, int& st) override { Locker<S, Locks>::set(s, v, st); }
	Token connect(const Slot& f, bool scs) override { if (vs::chance(1, 3)) return s.connector().connect(f, scs); return s.connect(f, scs); }
	Token aconnect(const ITaskExecutorPtr& e, const Slot& f, bool scs) override { if (vs::chance(1, 3)) return s.connector().connect(e, f, scs); return s.connect(e, f, scs); }
	void scs(const Slot& f) override { if (vs::chance(1, 3)) s.connector().SendCurrentState(f); else s.SendCurrentState(f); }
	function<void(int)> invoker() override { return s.invoker(); }
};
enum { MAXH = 64 };
struct World
{
	ISig* sig; ThreadTaskExecutorPtr exec; function<void(int)> invoker;
	Token tok[MAXH]; bool conn[MAXH], rst[MAXH], isAsync[MAXH];
	int nextH, nextV, budget, state, kind, popul; bool nested, multi, canThrow, alive, allAsync;
	std::string mode, policy;
	World();
};
static World* W;
static void abort_(int) { }
World::World() : invoker(&abort_) { }
static void doConn(); static void doInv(const char*); static void doReset(int h); static void doAction(int self, bool inPop);
static int pick(int above)
{
	vs::no_preempt np; std::vector<int> c;
	for (int h = above; h < W->nextH; ++h) if (W->conn[h] && !W->rst[h]) c.push_back(h);
	return c.empty() ? -1 : c[vs::rnd(0, c.size() - 1)];
}
struct H : public function_info<void(int)>
{
	int h;
	void operator()(int v) const
	{
		vs::ev("begin").i("h", h).i("v", v);
		vs::point();
		if (h < 1000 && W->nested) { bool inPop = !W->conn[h]; if (vs::chance(1, 2)) doAction(h, inPop); }
		vs::point();
		if (W->canThrow && vs::chance(1, 6)) { vs::ev("throw").i("h", h); throw TestError(h); }
		vs::ev("end").i("h", h);
	}
};
static bool spend() { vs::no_preempt np; if (W->budget <= 0) return false; --W->budget; return true; }
static void doConn()
{
	int h; { vs::no_preempt np; if (W->nextH >= MAXH - 1) return; h = W->nextH++; }
	bool as = W->mode == "async" && (W->allAsync || vs::chance(1, 2)); if (W->policy != "any" && vs::chance(1, 3)) as = W->exec && !as;
	bool scs = !vs::chance(1, 4);
	W->isAsync[h] = as; H f; f.h = h;
	call("conn").i("h", h).i("async", as).i("scs", scs);
	std::string r = "ok";
	try { W->tok[h] = as ? W->sig->aconnect(W->exec, f, scs) : W->sig->connect(f, scs); }
	catch (const std::exception&) { r = "exc"; }
	{ vs::no_preempt np; ret("conn").s("r", r); if (r == "ok") W->conn[h] = true; }
}
static void doInv(const char* op)
{
	int v; { vs::no_preempt np; v = 100 + W->nextV++; }
	call(op).i("v", v);
	if (*op == 's') W->sig->set(v, W->state);
	else if (vs::chance(1, 3)) W->invoker(v);
	else W->sig->inv(v);
	ret(op);
}
static void doReset(int h)
{
	if (h < 0) return;
	Token t;
	{ vs::no_preempt np; if (W->rst[h]) return; W->rst[h] = true; call("reset").i("h", h); t = std::move(W->tok[h]); }
	t.Reset();
	ret("reset");
}
static void doAction(int self, bool inPop)
{
	if (inPop || !spend()) return;
	int r = vs::rnd(0, 9);
	if (W->multi) // several threads run handlers: keep a lock order (see DESIGN.md)
	{
		if (r < 4) { if (!W->rst[self]) doReset(self); }
		else if (r < 7) doReset(pick(self + 1));
		else doConn();
		return;
	}
	if (r < 2) doReset(self);
	else if (r < 5) doReset(pick(1));
	else if (r < 8) doConn();
	else doInv(W->mode == "pop" ? "set" : "inv");
}
static void populator(const function<void(int)>& slot)
{
	slot(W->state);
	if (W->popul == 2) throw TestError(777);
}
static void exh(const std::exception& ex)
{
	const TestError* e = dynamic_cast<const TestError*>(&ex);
	vs::ev("exh").i("k", e ? e->k : -1);
}
static void step(int t, int r)
{
	bool pop = W->mode == "pop"; if (vs::opti("focus", 0)) { r = r < 20 ? r : r < 45 ? 40 : 70 + r % 22; }
	if (r < 35) { if (!W->multi && !pop && !W->allAsync && t != 1) doConn(); else doInv(pop ? "set" : "inv"); }
	else if (r < 65) doConn();
	else if (r < 92 || !pop) doReset(pick(1));
	else { int h = 1000 + t; call("scs").i("h", h); { H f; f.h = h; W->sig->scs(f); } ret("scs"); }
}

int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.mode = vs::opt("mode", "sync");
		for (int i = 0; i < MAXH; ++i) w.conn[i] = w.rst[i] = w.isAsync[i] = false;
		w.nextH = 1; w.nextV = 0; w.state = 0; w.alive = true; w.budget = vs::rnd(0, 4);
		int nt = vs::rnd(1, 3);
		w.kind = vs::rnd(0, 3);
		if (w.mode == "sync" ? w.kind == 2 : false) nt = 1;
		if (w.mode != "sync" && (w.kind == 2 || w.kind == 3)) w.kind = 0;
		w.nested = vs::chance(2, 3);
		w.allAsync = w.mode == "async" && vs::chance(1, 2);
		if (vs::opti("apop", 0)) w.allAsync = true;
		w.multi = w.mode == "sync" ? nt > 1 && vs::chance(1, 2) : w.mode == "pop" ? false : !w.allAsync;
		w.popul = w.mode == "pop" ? (vs::chance(1, 5) && w.kind == 0 ? 2 : 1) : w.mode == "async" && (vs::opti("apop", 0) || vs::chance(1, 4)) ? 1 : 0; if (vs::opti("apop", 0)) w.allAsync = true;
		if (w.mode == "async" && w.popul) { w.kind = 0; if (!w.allAsync) w.popul = 0; }
		w.policy = vs::chance(1, 8) && w.kind != 3 ? (vs::chance(1, 2) ? "sync" : "async") : "any";
		if (w.policy != "any" && w.mode != "async") w.policy = "sync";
		w.canThrow = (w.kind == 0 || w.kind == 2) && vs::chance(1, 2);
		if (w.mode != "sync") w.canThrow = w.kind == 0 && vs::chance(1, 3);
		vs::set_time_jitter(false);
		ConnectionPolicy pol = w.policy == "any" ? ConnectionPolicy(ConnectionPolicy::Any) : w.policy == "sync" ? ConnectionPolicy(ConnectionPolicy::SyncOnly) : ConnectionPolicy(ConnectionPolicy::AsyncOnly);
		{ vs::ev e("cfg"); e.i("guarded", w.kind != 2).s("policy", w.policy).i("popul", w.popul).i("kind", w.kind); }
		typedef signal<void(int)> S0;
		typedef signal<void(int), signal_policies::threading::ExternalMutexPointer> S1;
		typedef signal<void(int), signal_policies::threading::Threadless> S2;
		typedef signal<void(int), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Null, signal_policies::populators::Null, signal_policies::connection_policy_control::Null, signal_policies::creation::Lazy> S3;
		function<void(const function<void(int)>&)> pf(&populator);
		function<void(const std::exception&)> ef(&exh);
		shared_ptr<Mutex> mx = make_shared_ptr<Mutex>();
		switch (w.kind)
		{
		case 0: if (w.popul) w.sig = new Sig<S0, true>(pf, ef, pol); else w.sig = new Sig<S0, true>(null, ef, pol); break;
		case 1: if (w.popul) w.sig = new Sig<S1, true>(signal_policies::threading::ExternalMutexPointer(mx), pf, pol); else w.sig = new Sig<S1, true>(signal_policies::threading::ExternalMutexPointer(mx), null, pol); break;
		case 2: if (w.popul) w.sig = new Sig<S2, false>(pf, ef, pol); else w.sig = new Sig<S2, false>(null, ef, pol); break;
		case 3: w.sig = new Sig<S3, true>(); break;
		}
		if (w.mode == "async" || w.policy != "any") w.exec = make_shared_ptr<ThreadTaskExecutor>("x", null, &exh);
		if (w.kind == 3 && nt == 1 && vs::chance(1, 2)) { call("inv").i("v", 99); w.sig->inv(99); ret("inv"); }
		w.invoker = w.sig->invoker();
		if (w.mode == "sync" && vs::chance(1, 20)) { bool n = w.nested; w.nested = false; for (int i = 0; i < 18; ++i) doConn(); w.nested = n; }
		else if (vs::chance(1, 2)) for (int i = vs::rnd(0, 3); i > 0; --i) doConn();
		std::vector<std::vector<int> > prog(nt + 1);
		int total = 0;
		for (int t = 1; t <= nt; ++t) for (int i = vs::rnd(1, 5); i > 0 && total < 10; --i, ++total) prog[t].push_back(vs::rnd(0, 99));
		for (int t = 1; t <= nt; ++t) vs::spawn(t, [&prog, t]{ for (size_t i = 0; i < prog[t].size(); ++i) step(t, prog[t][i]); });
		for (int t = 1; t <= nt; ++t) vs::join(t);
		if (w.mode == "async") { vs::sleep_ms(1000); vs::ev("drained"); }
		w.budget = 0;
		int endk = vs::rnd(0, 2);
		if (endk == 1) { delete w.sig; w.sig = 0; w.nested = false; call("inv").i("v", 500); w.invoker(500); ret("inv"); }
		if (endk == 2) { int h = pick(1); if (h > 0) doReset(h); if (w.mode == "pop") doInv("set"); else doInv("inv"); }
		if (w.exec)
		{
			if (vs::chance(1, 3)) for (int h = 1; h < w.nextH; ++h) if (w.conn[h] && !w.rst[h] && vs::chance(1, 2)) doReset(h);
			vs::sleep_ms(1000);
			vs::ev("drained");
		}
		for (int h = 1; h < w.nextH; ++h) if (w.conn[h] && !w.rst[h]) doReset(h);
		if (w.sig) delete w.sig;
		w.exec.reset();
		w.invoker = function<void(int)>(&abort_);
	});
}
