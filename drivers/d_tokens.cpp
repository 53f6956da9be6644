// Tokens, token holders / pools / maps, multi and object tokens, attached tokens, scoped and shared holders, scope exits, object pool.
#include "drv.h"
#include <stingraykit/FunctionToken.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/ObjectPool.h>
#include <stingraykit/Holder.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/Token.h>
using namespace stingray; using namespace drv;
typedef std::vector<int> VI; typedef shared_ptr<int> SP;
static Token H[36]; static SP S[36]; static TokenHolder* TH; static TokenPool* P1; static ThreadlessTokenPool* P2; static ObjectPool* P3; static TokenMap<int>* M1; static ThreadlessTokenMap<int>* M2;
static std::unique_ptr<ScopedHolder<int> > SH; static SharedHolder<int> Hs[3]; static int refs;
static int nobj, depth[3], budget; static bool mt, nest; static int focus;
static void act();
static void action(int o, bool plain)
{
	vs::ev("begin").i("o", o);
	int t = vs::tid();
	if (!plain && nest && depth[t] < 3) { ++depth[t]; for (int i = vs::rnd(0, 2); i > 0; --i) act(); --depth[t]; }
	bool thr = vs::chance(1, 8);
	vs::ev("end").i("o", o);
	if (thr && !plain) throw TestError(1);
}
struct Act : public function_info<void ()> { int o; Token held; explicit Act(int o_) : o(o_) { } void operator () () const { action(o, false); } };
struct Del { int o; void operator () (int* p) const { delete p; action(o, true); } };
struct Obj { int o; explicit Obj(int o_) : o(o_) { } Obj(Obj&& x) : o(x.o) { x.o = 0; } ~Obj() { if (o) action(o, true); } Obj(const Obj& x) : o(0) { abort(); } };
static void cleanup(int h) { action(h, true); }
static int cl(const char* op, int i = 0, int j = 0, int k = 0, bool nw = false, const VI& ls = VI()) { vs::no_preempt np; int o = nw ? ++nobj : 0; call(op).i("i", i).i("j", j).i("k", k).i("o", o).li("ls", ls); return o; }
static void rt(const char* op, int r = 0) { ret(op).i("r", r); }
template <class B> static void multi(int i, const VI& ls, int mv) { B b; for (size_t x = 0; x < ls.size(); ++x) if (x + mv >= ls.size()) b % std::move(H[ls[x]]); else b % H[ls[x]]; H[i] = b; }
static void act()
{
	{ vs::no_preempt np; if (--budget < 0) return; }
	int t = vs::tid(), i = t * 4 + vs::rnd(0, 3), j = t * 4 + vs::rnd(0, 3), v = vs::rnd(0, 99), k = vs::rnd(0, 1); bool m = t == 0, top = depth[t] == 0;
	if (focus && vs::chance(1, 2)) v = focus == 1 ? vs::rnd(64, 77) : focus == 2 ? vs::rnd(46, 63) : vs::rnd(0, 1) ? vs::rnd(18, 23) : vs::rnd(34, 43);
	if (v < 14) { k = vs::chance(1, 4); int o = cl("make", i, j, k, true); Act a(o); if (k) a.held = H[j]; if (vs::chance(1, 8) && !k) { H[i] = MakeObjectToken(Obj(o)); } else H[i] = MakeFunctionToken(std::move(a)); a.held.Reset(); rt("make"); }
	else if (v < 18) { cl("wrap", i, j, 0, true); H[i] = MakeObjectToken(H[j]); rt("wrap"); }
	else if (v < 24)
	{
		VI a; for (int x = 0; x < 4; ++x) a.push_back(t * 4 + x); for (int x = 3; x > 0; --x) std::swap(a[x], a[vs::rnd(0, x)]);
		a.resize(vs::rnd(0, 4)); int mv = a.empty() ? 0 : vs::rnd(0, a.size());
		cl("multi", i, mv, k, true, a);
		if (k) multi<ForwardMultiTokenBuilder>(i, a, mv); else multi<ReverseMultiTokenBuilder>(i, a, mv);
		rt("multi");
	}
	else if (v < 29) { cl("copy", i, j); if (k) H[i] = H[j]; else H[i].Set(H[j]); rt("copy"); }
	else if (v < 34) { cl("move", i, j); if (k) H[i] = std::move(H[j]); else H[i].Set(std::move(H[j])); rt("move"); }
	else if (v < 44) { cl("reset", i); H[i].Reset(); rt("reset"); }
	else if (v < 46) { cl("init", i); int r = H[i].IsInitialized(); rt("init", r); }
	else if (v < 52) { int w = vs::rnd(0, 4); if (w == 0) { cl("reset", 35); TH->Reset(); rt("reset"); } else if (w < 3) { cl("copy", 35, j); if (k) TH->Set(H[j]); else *TH = H[j]; rt("copy"); } else { cl("move", 35, j); if (k) TH->Set(std::move(H[j])); else *TH = std::move(H[j]); rt("move"); } }
	else if (v < 64)
	{
		int p = m && vs::chance(1, 2) ? 2 : 1, w = vs::rnd(0, 9);
		if (w < 3) { cl("padd", p, j); if (p == 1) { if (k) *P1 += H[j]; else P1->Add(H[j]); } else { if (k) *P2 += H[j]; else P2->Add(H[j]); } rt("padd"); }
		else if (w < 6) { cl("paddm", p, j); if (p == 1) { if (k) *P1 += std::move(H[j]); else P1->Add(std::move(H[j])); } else { if (k) *P2 += std::move(H[j]); else P2->Add(std::move(H[j])); } rt("paddm"); }
		else if (w < 9) { cl("prel", p); if (p == 1) P1->Release(); else P2->Release(); rt("prel"); }
		else { cl("pempty", p); int r = p == 1 ? P1->Empty() : P2->Empty(); rt("pempty", r); }
	}
	else if (v < 78)
	{
		int p = m && vs::chance(1, 2) ? 2 : 1, w = vs::rnd(0, 9);
		if (w < 3) { cl("madd", p, j, k); if (p == 1) (*M1)[k] += H[j]; else (*M2)[k] += H[j]; rt("madd"); }
		else if (w < 5) { cl("maddm", p, j, k); if (p == 1) (*M1)[k] += std::move(H[j]); else (*M2)[k] += std::move(H[j]); rt("maddm"); }
		else if (w < 7) { cl("mrel", p, 0, k); if (p == 1) M1->release(k); else M2->release(k); rt("mrel"); }
		else if (w < 8) { cl("mall", p); if (p == 1) M1->release_all(); else M2->release_all(); rt("mall"); }
		else { cl("mhas", p, 0, k); int r = p == 1 ? M1->contains(k) : M2->contains(k); rt("mhas", r); }
	}
	else if (!m || !top) { k = vs::chance(1, 3); int o = cl("scope", 0, 0, k, true); { Act a(o); ScopeExitInvoker s((ScopeExitInvoker::FuncType(a))); if (k) s.Cancel(); } rt("scope"); }
	else if (v < 88)
	{
		int w = vs::rnd(0, 8); i = 12 + vs::rnd(0, 3); int si = i, sj = 12 + vs::rnd(0, 3);
		if (w < 2) { int o = cl("make", si, 0, 0, true); Del d = { o }; S[si] = SP(new int(o), d); rt("make"); }
		else if (w < 4) { cl("attach", si, j, 0, true); if (k) S[si] = AttachToken(S[si], H[j]); else { SP x = TokenAttacher<int>(S[si]) % H[j]; S[si].swap(x); } rt("attach"); }
		else if (w < 5) { cl("copy", si, sj); S[si] = S[sj]; rt("copy"); }
		else if (w < 6) { cl("reset", si); S[si].reset(); rt("reset"); }
		else if (w < 8) { if (S[sj].use_count()) { cl("padd", 3, sj); P3->AddObject(S[sj]); rt("padd"); } }
		else { cl("gc", 3); P3->CollectGarbage(); rt("gc"); }
	}
	else if (v < 97)
	{
		int w = vs::rnd(0, 9);
		if (w < 5)   // cell 1: the scoped holder
		{
			if (w < 2) { int o = cl("hset", 1, 0, 0, true); SH->Set(o); rt("hset"); }
			else if (w < 3) { cl("hclear", 1); SH->Clear(); rt("hclear"); }
			else if (w < 4) { cl("hgive", 1); int r = 0; try { r = SH->Release(); } catch (const LogicException&) { } rt("hgive", r); }
			else { cl("hget", 1); int r = 0; if (SH->Valid()) r = SH->Get(); else try { SH->Get(); r = -1; } catch (const LogicException&) { } rt("hget", r); }
		}
		else
		{
			SharedHolder<int>& h = Hs[vs::rnd(0, refs - 1)];
			if (w < 6) { int o = cl("hset", 2, 0, 0, true); h.Set(o); rt("hset"); }
			else if (w < 7) { cl("hclear", 2); h.Clear(); rt("hclear"); }
			else if (w < 8) { cl("hget", 2); int r = 0; if (h.Valid()) r = h.Get(); rt("hget", r); }
			else if (w < 9) { if (refs < 3) { cl("hcopy", 2); Hs[refs] = Hs[0]; ++refs; rt("hcopy"); } }
			else if (refs > 1) { cl("hdrop", 2); --refs; Hs[refs] = SharedHolder<int>(); rt("hdrop"); }
		}
	}
	else { k = vs::chance(1, 3); int o = cl("scope", 0, 0, k, true); { Act a(o); ScopeExitInvoker s((ScopeExitInvoker::FuncType(a))); if (k) s.Cancel(); } rt("scope"); }
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		vs::ev("cfg").i("x", 0);
		nobj = 0; mt = vs::chance(1, 2); nest = vs::chance(2, 3); focus = vs::rnd(0, 3); budget = mt ? 30 : 40;
		TH = new TokenHolder; P1 = new TokenPool; P2 = new ThreadlessTokenPool; P3 = new ObjectPool; M1 = new TokenMap<int>; M2 = new ThreadlessTokenMap<int>;
		cl("hcopy", 1); SH.reset(new ScopedHolder<int>(&cleanup)); rt("hcopy"); cl("hcopy", 2); Hs[0] = SharedHolder<int>(&cleanup); refs = 1; rt("hcopy");
		if (!mt) for (int i = vs::rnd(3, 24); i > 0; --i) act();
		else
		{
			for (int i = vs::rnd(1, 5); i > 0; --i) act();
			for (int x = 4; x < 12; ++x) if (vs::chance(1, 3)) { int b = vs::rnd(0, 3); cl("copy", x, b); H[x] = H[b]; rt("copy"); }
			for (int t = 1; t < 3; ++t) vs::spawn(t, []{ for (int i = vs::rnd(1, 6); i > 0; --i) act(); });
			for (int i = vs::rnd(0, 5); i > 0; --i) act();
			for (int t = 1; t < 3; ++t) vs::join(t);
		}
		budget = 0;
		for (int q = 0; q < 12; ++q) { cl("reset", q); H[q].Reset(); rt("reset"); }
		for (int q = 12; q < 16; ++q) { cl("reset", q); S[q].reset(); rt("reset"); }
		cl("reset", 35); delete TH; rt("reset"); cl("prel", 1); delete P1; rt("prel"); cl("prel", 2); delete P2; rt("prel"); cl("gc", 3); P3->CollectGarbage(); rt("gc"); cl("gc", 3); P3->CollectGarbage(); rt("gc"); cl("prel", 3); delete P3; rt("prel");
		cl("mall", 1); delete M1; rt("mall"); cl("mall", 2); delete M2; rt("mall");
		cl("hdrop", 1); SH.reset(); rt("hdrop"); for (; refs; ) { cl("hdrop", 2); --refs; Hs[refs] = SharedHolder<int>(); rt("hdrop"); }
	});
}
