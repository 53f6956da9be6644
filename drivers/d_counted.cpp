// Counted holders, action transactions, progress of parts: random programs with failing actions.
#include "drv.h"
#include <stingraykit/collection/RefCounter.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <memory>
using namespace stingray; using namespace drv;
static int g_serial = 0, g_called = 0, g_seen = 0; static bool g_fail = false; static std::string g_list;
static void item(std::string& l, int k, int v) { l += std::string(l.empty() ? "" : ",") + "[" + std::to_string(k) + "," + std::to_string(v) + "]"; }
static int make() { ++g_called; if (g_fail) throw TestError(1); return ++g_serial; }
static void gone(int k, int v) { ++g_called; g_seen = v; if (g_fail) throw TestError(2); item(g_list, k, v); }
struct Holder
{
	virtual ~Holder() { }
	virtual int add(int k) = 0; virtual int rel(int k) = 0; virtual void clear() = 0; virtual int count(int k) = 0; virtual void list(std::string& s) = 0;
};
struct MapH : Holder
{
	RefCountingMap<int, int> m;
	int add(int k) { return (*m.add(k, [](int) { return make(); })).second; }
	int rel(int k)
	{
		if (vs::chance(1, 2)) return m.erase(k, [](int k, int v) { gone(k, v); });
		auto i = m.find(k); if (i == m.end()) return 0; m.erase(i, [](int k, int v) { gone(k, v); }); return 1;
	}
	void clear() { m.clear([](int k, int v) { gone(k, v); }); }
	int count(int k) { return m.count(k); }
	void list(std::string& s) { size_t n = 0; for (auto i = m.begin(); i != m.end(); ++i, ++n) item(s, (*i).first, (*i).second); if (n != m.size() || m.empty() != (n == 0)) item(s, -1, n); }
};
struct SetH : Holder
{
	RefCountingSet<int> m; std::map<int, int> v;
	int add(int k) { int c = g_called; auto i = m.add(k, [&](int) { v[k] = make(); }); if (*i != k) return -7; (void)c; return v[k]; }
	int rel(int k)
	{
		if (vs::chance(1, 2)) return m.erase(k, [&](int k) { gone(k, v[k]); });
		auto i = m.find(k); if (i == m.end()) return 0; m.erase(i, [&](int k) { gone(k, v[k]); }); return 1;
	}
	void clear() { m.clear([&](int k) { gone(k, v[k]); }); }
	int count(int k) { return m.count(k); }
	void list(std::string& s) { size_t n = 0; for (int k : m) { item(s, k, v[k]); ++n; } if (n != m.size() || m.empty() != (n == 0)) item(s, -1, n); }
};
struct ValH : Holder
{
	RefCountingValue<int> m;
	int add(int) { return m.set([] { return make(); }); }
	int rel(int) { return m.release([](int v) { gone(1, v); }); }
	void clear() { m.reset([](int v) { gone(1, v); }); }
	int count(int) { return m.count(); }
	void list(std::string& s) { if (m.count()) item(s, 1, *m.get()); }
};
struct CntH : Holder
{
	RefCounter m; int v;
	int add(int) { m.set([&] { v = make(); }); return v; }
	int rel(int) { return m.release([&] { gone(1, v); }); }
	void clear() { m.reset([&] { gone(1, v); }); }
	int count(int) { return m.count(); }
	void list(std::string& s) { if (m.count()) item(s, 1, v); }
};
static void counted()
{
	int kind = vs::rnd(0, 3), nk = kind < 2 ? 3 : 1; std::unique_ptr<Holder> h;
	if (kind == 0) h.reset(new MapH); else if (kind == 1) h.reset(new SetH); else if (kind == 2) h.reset(new ValH); else h.reset(new CntH);
	vs::ev("cfg").i("kind", kind);
	for (int n = vs::rnd(2, 12); n > 0; --n)
	{
		int k = vs::rnd(1, nk), r = 1, v = 0; g_called = 0; g_seen = 0; g_list.clear(); g_fail = vs::chance(1, 4); int f = g_fail;
		switch (vs::rnd(0, 8))
		{
		case 0: case 1: case 2: try { v = h->add(k); } catch (const TestError&) { r = -1; } vs::ev("add").i("k", k).i("f", f).i("c", g_called).i("r", r).i("v", v); break;
		case 3: case 4: case 5: try { r = h->rel(k); } catch (const TestError&) { r = -1; } vs::ev("rel").i("k", k).i("f", f).i("c", g_called).i("r", r).i("v", g_seen); break;
		case 6: { int c = h->count(k); vs::ev("cnt").i("k", k).i("r", c); break; }
		case 7: { std::string s; h->list(s); vs::ev("ls").raw("s", "[" + s + "]"); break; }
		default: if (vs::chance(1, 3)) { g_fail = false; h->clear(); vs::ev("clr").raw("s", "[" + g_list + "]"); }
		}
	}
	g_fail = false; g_list.clear(); h->clear(); vs::ev("clr").raw("s", "[" + g_list + "]");
}
struct Act : public function_info<void ()> { bool fail; int* ran; Act(bool f, int* r) : fail(f), ran(r) { } void operator () () const { ++*ran; if (fail) throw TestError(3); } };
static std::vector<int> g_undone; static bool g_undoFailed = false; static int g_bad[32];
struct Und : public function_info<void ()> { int i; Und(int i_) : i(i_) { } void operator () () const { g_undone.push_back(i); if (g_bad[i] > 0) { --g_bad[i]; g_undoFailed = true; throw TestError(4); } } };
static void transaction()
{
	vs::ev("cfg").i("kind", 4);
	for (int t = vs::rnd(1, 2); t > 0; --t)
	{
		std::unique_ptr<ActionTransaction> tr(new ActionTransaction); vs::ev("begin"); int id = 0;
		for (int n = vs::rnd(0, 7); n > 0; --n)
		{
			int r = 1; g_undone.clear(); g_undoFailed = false;
			switch (vs::rnd(0, 7))
			{
			case 0: if (vs::chance(2, 3)) break; try { tr->Commit(); } catch (const std::exception&) { r = -1; } vs::ev("com").i("r", r); break;
			case 1: case 2: if (vs::chance(1, 3)) break; try { tr->Rollback(); } catch (const std::exception&) { r = -1; } vs::ev("roll").li("u", g_undone).i("f", g_undoFailed).i("r", r); break;
			default: { bool f = vs::chance(1, 4); int ran = 0; ++id; g_bad[id] = vs::chance(1, 4) ? vs::rnd(1, 2) : 0; try { tr->Execute(Act(f, &ran), Und(id)); } catch (const std::exception&) { r = -1; } vs::ev("exec").i("i", id).i("f", f).i("c", ran).i("r", r); }
			}
		}
		g_undone.clear(); g_undoFailed = false; tr.reset(); vs::ev("die").li("u", g_undone).i("f", g_undoFailed);
	}
}
static int g_p = -1, g_reports = 0;
struct Rep : public function_info<void (const ProgressValue&)> { void operator () (const ProgressValue& p) const { ++g_reports; g_p = p.Total == 100 ? (int)p.Current : -1; } };
static void progress()
{
	vs::ev("cfg").i("kind", 5);
	for (int t = vs::rnd(1, 6); t > 0; --t)
	{
		function<void (const ProgressValue&)> f = Rep(); std::string lv;
		for (int d = vs::rnd(1, 3); d > 0; --d)
		{
			int n = vs::rnd(1, 7), s = vs::rnd(1, 3), i = vs::rnd(0, 7), ok = 1;
			try { if (s == 1 && vs::chance(1, 2)) f = AggregateProgressReporter(f, i, n); else f = AggregateProgressReporter(f, i, s, n); } catch (const std::exception&) { ok = 0; }
			vs::ev("part").i("i", i).i("s", s).i("n", n).i("ok", ok);
			if (ok) lv = "{\"i\":" + std::to_string(i) + ",\"s\":" + std::to_string(s) + ",\"n\":" + std::to_string(n) + "}" + (lv.empty() ? "" : ",") + lv;
		}
		if (lv.empty()) continue;
		for (int m = vs::rnd(1, 3); m > 0; --m)
		{
			int tt = vs::chance(1, 8) ? 0 : vs::rnd(1, 300), c = vs::rnd(0, tt); g_p = -1; g_reports = 0; f(ProgressValue(c, tt));
			vs::ev("prog").raw("lv", "[" + lv + "]").i("c", c).i("tt", tt).i("p", g_reports == 1 ? g_p : -2);
		}
	}
}
static void run()
{
	vs::set_time_jitter(false);
	switch (vs::rnd(0, 4)) { case 0: progress(); break; case 1: case 2: transaction(); break; default: counted(); }
}
int main(int argc, char** argv) { return vs::main(argc, argv, run); }
