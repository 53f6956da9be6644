// Promises and futures under the controlled scheduler, virtual time.  kind: type of the result (0 string, 1 void, 2 int&).
#include "drv.h"
#include <stingraykit/future.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <map>
using namespace stingray; using namespace drv;
#define NOW .i("now", vs::now_ms())
enum { BROKEN = -1000, ODD = 99999 };
static int g_ints[64];
template <class T> struct Val;
template <> struct Val<std::string> { static std::string make(int v) { return std::string(40, 'a' + v % 26) + std::to_string(v); } static int read(const std::string& s) { int v = s.size() > 40 ? atoi(s.c_str() + 40) : ODD; return s == make(v) ? v : ODD; } };
template <> struct Val<int&> { static int& make(int v) { g_ints[v] = v; return g_ints[v]; } static int read(int& r) { return &r == &g_ints[r % 64] ? r : ODD; } };
template <class T> void do_set(promise<T>& p, int v) { p.set_value(Val<T>::make(v)); }
template <> void do_set<void>(promise<void>& p, int) { p.set_value(); }
template <class T, class F> int do_get(F& f) { return Val<T>::read(f.get()); }
template <> int do_get<void, future<void> >(future<void>& f) { f.get(); return 7; }
template <> int do_get<void, shared_future<void> >(shared_future<void>& f) { f.get(); return 7; }
template <class T, class F> int outcome(F& f)
{
	try { return do_get<T, F>(f); }
	catch (const RethrownException& e)
	{ // the stored exception travels as its description
		std::string d = e.what(); size_t p = d.find("TestError\n");
		if (d.find("stingray::BrokenPromise\n") == 0) return BROKEN;
		return p == std::string::npos ? ODD : -atoi(d.c_str() + p + 10);
	}
	catch (const stingray::Exception& e) { return ODD; }
	catch (const std::runtime_error& e) { return 0; }
}
template <class T> struct World
{
	std::map<int, std::unique_ptr<promise<T> > > prom; std::map<int, std::unique_ptr<future<T> > > fut; std::map<int, shared_future<T> > sh;
	std::unique_ptr<CancellationToken> tok[8]; int nextF, left;

	void newPromise(int p) { vs::no_preempt np; vs::ev("promise").i("p", p); prom[p].reset(new promise<T>()); }
	void getFuture(int p)
	{
		vs::no_preempt np; int f = ++nextF; std::string r = "ok";
		try { fut[f].reset(new future<T>(prom[p]->get_future())); } catch (const FutureAlreadyRetrieved&) { r = "retrieved"; fut.erase(f); } catch (const std::exception&) { r = "other"; fut.erase(f); }
		vs::ev("future").i("p", p).i("f", f).s("r", r);
	}
	int share(int f) { vs::no_preempt np; int s = ++nextF; sh[s] = fut[f]->share(); vs::ev("share").i("f", f).i("s", s); return s; }
	int copy(int s) { vs::no_preempt np; int s2 = ++nextF; sh[s2] = sh[s]; vs::ev("copy").i("s", s).i("s2", s2); return s2; }
	void swap(int p, int q) { vs::no_preempt np; prom[p]->swap(*prom[q]); vs::ev("swap").i("p", p).i("q", q); }
	void set(int p, int v)
	{
		promise<T>* pr; { vs::no_preempt np; pr = prom[p].get(); }
		call("set").i("p", p).i("v", v); std::string r = "ok";
		try { if (v > 0) do_set<T>(*pr, v); else pr->set_exception(MakeExceptionPtr(TestError(-v))); } catch (const PromiseAlreadySatisfied&) { r = "already"; } catch (const std::exception&) { r = "other"; }
		ret("set").s("r", r);
	}
	void destroy(int p) { std::unique_ptr<promise<T> > x; { vs::no_preempt np; x = std::move(prom[p]); prom.erase(p); } call("destroy").i("p", p); x.reset(); ret("destroy"); }
	template <class F> void get(int f, F& x, int s) { call("get").i("f", f).i("sh", s); int r = outcome<T, F>(x); ret("get").i("r", r); }
	template <class F> void wait(int t, int f, F& x)
	{
		static const int tos[] = { 0, 1, 5, 12 };
		int k = vs::rnd(0, 3), to = tos[vs::rnd(0, 3)]; std::unique_ptr<TimedCancellationToken> tt;
		{ vs::no_preempt np; if (k & 1) { if (k & 2) tt.reset(new TimedCancellationToken(*tok[t], TimeDuration(to))); else tt.reset(new TimedCancellationToken(TimeDuration(to))); }
		  call("wait").i("f", f).i("dl", (k & 1) ? vs::now_ms() + to : -1).i("tok", (k & 2) ? t : 0) NOW; }
		std::string r;
		try { r = k == 0 ? x.wait().ToString() : k == 2 ? x.wait(*tok[t]).ToString() : x.wait(*tt).ToString(); } catch (const std::runtime_error&) { r = "invalid"; }
		ret("wait").s("r", r) NOW;
	}
	template <class F> void query(int f, F& x)
	{
		vs::no_preempt np; vs::ev("valid").i("f", f).i("r", x.valid()); int r;
		try { r = x.is_ready(); } catch (const std::runtime_error&) { r = -1; } vs::ev("query").i("f", f).s("op", "ready").i("r", r);
		try { r = x.has_value(); } catch (const std::runtime_error&) { r = -1; } vs::ev("query").i("f", f).s("op", "value").i("r", r);
		try { r = x.has_exception(); } catch (const std::runtime_error&) { r = -1; } vs::ev("query").i("f", f).s("op", "exception").i("r", r);
	}
	template <class F> void use(int t, int f, F& x, int shd, int n)
	{
		for (int i = 0; i < n; ++i) { int r = vs::rnd(0, 9); if (r < 4) get(f, x, shd); else if (r < 8) wait(t, f, x); else query(f, x); }
	}
};
template <class T> void scenario(int fixed)
{
	World<T> w; w.nextF = 0; w.left = 0;
	bool jit = vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(vs::chance(1, 3));
	vs::ev("cfg").i("jit", jit);
	int np = vs::rnd(1, 2), nv = 0;
	for (int i = 1; i <= 4; ++i) w.tok[i].reset(new CancellationToken);
	for (int p = 1; p <= np; ++p) { w.newPromise(p); if (vs::chance(1, 5)) w.getFuture(p); }
	if (np == 2 && vs::chance(1, 3)) w.swap(1, 2);
	for (int p = 1; p <= np; ++p) { w.getFuture(p); if (vs::chance(1, 6)) w.getFuture(p); }
	if (np == 2 && vs::chance(1, 3)) w.swap(1, 2);
	// distribute: unique futures go to one thread, shared ones are copied
	std::vector<std::pair<int, int> > jobs; // handle, shared
	std::vector<int> fs; for (auto& x : w.fut) fs.push_back(x.first);
	for (size_t i = 0; i < fs.size(); ++i)
	{
		if (vs::chance(1, 2)) jobs.push_back(std::make_pair(fs[i], 0));
		else
		{
			int s = w.share(fs[i]); int n = vs::rnd(1, 3);
			if (vs::chance(1, 6)) w.query(fs[i], *w.fut[fs[i]]);
			jobs.push_back(std::make_pair(s, 1)); for (int k = 1; k < n; ++k) jobs.push_back(std::make_pair(w.copy(s), 1));
		}
	}
	if (jobs.size() > 4) jobs.resize(4);
	w.left = jobs.size();
	for (size_t j = 0; j < jobs.size(); ++j)
	{
		int t = 1 + j, n = vs::rnd(1, 3); std::pair<int, int> job = jobs[j];
		future<T>* uf = job.second ? NULL : w.fut[job.first].get(); shared_future<T>* sf = job.second ? &w.sh[job.first] : NULL;
		vs::spawn(t, [&w, t, n, job, uf, sf]{ if (sf) w.use(t, job.first, *sf, 1, n); else w.use(t, job.first, *uf, 0, n); vs::no_preempt g; --w.left; });
	}
	int ns = vs::rnd(0, 2);
	for (int s = 0; s < ns; ++s)
	{
		std::vector<std::pair<int, int> > prog; for (int i = vs::rnd(1, 2); i > 0; --i) { ++nv; int v = fixed && vs::chance(2, 3) ? 7 : nv + 7; if (fixed && v != 7) v = -v; if (!fixed && vs::chance(1, 3)) v = -v; prog.push_back(std::make_pair(vs::rnd(1, np), v)); }
		int d = vs::chance(1, 2) ? vs::rnd(0, 8) : 0, tc = vs::chance(1, 3) ? vs::rnd(1, 4) : 0;
		vs::spawn(11 + s, [&w, prog, d, tc]{
			if (d) vs::sleep_ms(d);
			for (size_t i = 0; i < prog.size(); ++i) w.set(prog[i].first, prog[i].second);
			bool c = false; { vs::no_preempt g; c = tc && !w.tok[tc]->IsCancelled(); }
			if (c) { call("cancel").i("x", tc); w.tok[tc]->Cancel(); ret("cancel").i("x", tc); }
		});
	}
	for (int s = 0; s < ns; ++s) vs::join(11 + s);
	auto idle = [&]{ if (jit) return; vs::sleep_us(500); vs::ev("idle") NOW; vs::sleep_us(500); };
	if (vs::chance(1, 2)) { if (vs::chance(1, 2)) vs::sleep_ms(vs::rnd(0, 15)); idle(); }
	for (int p = 1; p <= np; ++p) w.destroy(p);
	vs::sleep_ms(20); idle();
	for (size_t j = 0; j < jobs.size(); ++j) vs::join(1 + j);
	for (int i = 1; i <= 4; ++i) w.tok[i]->Cancel();
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		int k = vs::opti("kind", -1); if (k < 0) k = vs::rnd(0, 2);
		if (k == 0) scenario<std::string>(0); else if (k == 1) scenario<void>(1); else scenario<int&>(0);
	});
}
