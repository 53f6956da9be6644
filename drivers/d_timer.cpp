// Timer under the controlled scheduler, virtual time.
#include "drv.h"
#include <stingraykit/timer/Timer.h>
#include <stingraykit/thread/TaskLifeToken.h>
using namespace stingray; using namespace drv;
enum { MAXK = 40 };
struct World { Timer* timer; TimerPtr tp; Token tok[MAXK]; bool has[MAXK], rst[MAXK]; TaskLifeHolder life[2]; bool lrst[2]; int nextK, budget, periodics, throws; };
static World* W;
#define NOW .i("now", vs::now_ms())
struct Body : public function_info<void()>
{
	int k, thr, act, slp; std::vector<int> pad;
	void operator()() const;
};
static void add(int kind); static void reset(int k); static int pick();
static void action(int self)
{
	switch (vs::rnd(0, 5))
	{
	case 0: case 1: reset(self); break;
	case 2: reset(pick()); break;
	default: add(vs::rnd(0, 9)); break;
	}
}
void Body::operator()() const
{
	vs::ev("begin").i("k", k) NOW;
	vs::point();
	if (act) action(k);
	if (slp) vs::sleep_ms(slp);
	vs::point();
	if (pad.size() != 3 || pad[1] != k) vs::ev("corrupt").i("k", k);
	vs::ev(thr ? "throw" : "end").i("k", k) NOW;
	if (thr) throw TestError(k);
}
static void add(int kind)
{
	static const int tos[] = { 0, 0, 1, 5, 10, 20 }; static const int pers[] = { 3, 5, 10 };
	int k; { vs::no_preempt np; if (W->nextK >= MAXK - 1) return; k = ++W->nextK; }
	int to = tos[vs::rnd(0, 5)], per = 0, tok = k;
	Body b; b.k = k; b.thr = vs::chance(1, 8); b.slp = vs::chance(1, 8) ? vs::rnd(1, 12) : 0; b.pad.assign(3, k);
	{ vs::no_preempt np; b.act = W->budget > 0 && vs::chance(1, 2) ? (W->budget--, 1) : 0; }
	if (kind < 3) { to = 0; tok = vs::chance(1, 2) ? 0 : 1001 + vs::rnd(0, 1); }
	else if (kind < 5) { vs::no_preempt np; if (W->periodics < 2) { ++W->periodics; per = pers[vs::rnd(0, 2)]; if (vs::chance(1, 2)) to = per; } }
	call("add").i("k", k).i("to", to).i("per", per).i("tok", tok).i("thr", b.thr) NOW;
	Token t;
	if (kind < 3) { if (tok) W->timer->AddTask(b, W->life[tok - 1001].GetExecutionTester()); else W->timer->AddTask(b); }
	else if (per) t = per == to && vs::chance(1, 2) ? W->timer->SetTimer(TimeDuration(per), b) : W->timer->SetTimer(TimeDuration(to), TimeDuration(per), b);
	else t = W->timer->SetTimeout(TimeDuration(to), b);
	{ vs::no_preempt np; if (t) { W->tok[k] = std::move(t); W->has[k] = true; } ret("add") NOW; }
}
static int pick()
{
	vs::no_preempt np; std::vector<int> c;
	for (int k = 1; k <= W->nextK; ++k) if (W->has[k] && !W->rst[k]) c.push_back(k);
	for (int i = 0; i < 2; ++i) if (!W->lrst[i] && vs::chance(1, 3)) c.push_back(1001 + i);
	return c.empty() ? -1 : c[vs::rnd(0, c.size() - 1)];
}
static void reset(int k)
{
	if (k < 0) return;
	if (k > 1000)
	{
		{ vs::no_preempt np; if (W->lrst[k - 1001]) return; W->lrst[k - 1001] = true; call("reset").i("k", k) NOW; }
		W->life[k - 1001].Release();
		ret("reset") NOW;
		return;
	}
	Token t;
	{ vs::no_preempt np; if (!W->has[k] || W->rst[k]) return; W->rst[k] = true; t = std::move(W->tok[k]); call("reset").i("k", k) NOW; }
	t.Reset();
	ret("reset") NOW;
}
static void handler(const std::exception& ex) { const TestError* e = dynamic_cast<const TestError*>(&ex); vs::ev("handler").i("k", e ? e->k : -1) NOW; }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		World w; W = &w; w.nextK = w.periodics = 0; w.budget = vs::rnd(0, 4);
		for (int i = 0; i < MAXK; ++i) w.has[i] = w.rst[i] = false; w.lrst[0] = w.lrst[1] = false;
		bool jit = vs::chance(1, 3); vs::set_time_jitter(jit); vs::set_spurious(true);
		{ vs::ev e("cfg"); e.i("jit", jit); }
		optional<TimeDuration> pt; if (vs::chance(1, 8)) pt = TimeDuration::FromSeconds(10);
		w.tp = make_shared_ptr<Timer>("t", pt, &handler); w.timer = w.tp.get();
		int nt = vs::rnd(1, 3), total = 0;
		std::vector<std::vector<int> > prog(nt + 1);
		int rw = vs::opti("rw", 30);
		for (int t = 1; t <= nt; ++t) for (int i = vs::rnd(1, 5); i > 0 && total < 9; --i, ++total) prog[t].push_back(vs::rnd(0, 99));
		for (int t = 1; t <= nt; ++t) vs::spawn(t, [&, t]{
			for (size_t i = 0; i < prog[t].size(); ++i)
			{
				int r = prog[t][i];
				if (r < rw) reset(pick()); else if (r < rw + 15) vs::sleep_ms(vs::rnd(1, 15)); else add(vs::rnd(0, 9));
			}
		});
		for (int t = 1; t <= nt; ++t) vs::join(t);
		if (vs::chance(1, 2)) { vs::sleep_ms(vs::rnd(1, 40)); if (!jit) { vs::sleep_us(500); vs::ev("idle") NOW; vs::sleep_us(500); } }
		int fin = vs::rnd(0, 2);
		if (fin == 0) { for (int k = 1; k <= w.nextK; ++k) if (vs::chance(1, 2)) reset(k); }
		if (fin == 1)
		{	// tokens released while the timer is being destroyed
			vs::spawn(7, [&]{ for (int k = 1; k <= w.nextK; ++k) reset(k); });
		}
		call("close") NOW; w.tp.reset(); ret("close") NOW;
		if (fin == 1) vs::join(7);
		vs::sleep_ms(50);
		for (int k = 1; k <= w.nextK; ++k) reset(k);
	});
}
