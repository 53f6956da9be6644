// Observable values, plain and derived from collections, under the controlled scheduler.
#include "drv.h"
#include <stingraykit/ObservableValue.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
using namespace stingray; using namespace drv;
static int Q;
struct ClassEq : public comparers::EqualsComparerInfo { bool operator () (int a, int b) const { return a / Q == b / Q; } };
typedef function<void (int)> Slot;
// one observed key
struct Key
{
	virtual ~Key() { }
	virtual int get() = 0; virtual int sig() = 0; virtual bool canSet() = 0; virtual void set(int v) = 0; virtual Token connect(const Slot& s, bool pop) = 0;
};
struct World;
static World* W;
struct World
{
	const char* kind; std::shared_ptr<Key> key[3]; int nk, nv; Token tok[7]; int hk[7]; int nextH; bool nested; std::shared_ptr<bool> alive;
	shared_ptr<IObservableDictionary<int, int> > dict; shared_ptr<IObservableSet<int> > set; shared_ptr<ITransactionalDictionary<int, int> > txn;
	World() : nextH(1), nested(false) { for (int& h : hk) h = 0; }
	void run();
};
struct H : public function_info<void (int)>
{
	int h, k; H(int h_, int k_) : h(h_), k(k_) { }
	void operator () (int v) const
	{
		vs::ev("note").i("h", h).i("v", v);
		vs::point();
		if (W->nested && vs::chance(1, 2)) { bool g = vs::chance(2, 3); int r = g ? W->key[k]->get() : W->key[k]->sig(); vs::ev("inner").s("op", g ? "get" : "sig").i("k", k).i("r", r); }
		vs::point();
	}
};
struct OptTo : public function_info<void (const optional<int>&)> { Slot s; explicit OptTo(const Slot& s_) : s(s_) { } void operator () (const optional<int>& v) const { s(v ? *v : 0); } };
struct BoolTo : public function_info<void (bool)> { Slot s; explicit BoolTo(const Slot& s_) : s(s_) { } void operator () (bool v) const { s(v); } };
template <class OV> struct Plain : Key
{
	OV v; template <class... A> explicit Plain(A&&... a) : v(std::forward<A>(a)...) { }
	int get() override { return vs::chance(1, 2) ? v.Get() : int(v); }
	int sig() override { optional<int> r = GetValueFromSignal(v.OnChanged()); return r ? *r : -1; }
	bool canSet() override { return true; }
	void set(int x) override { if (vs::chance(1, 2)) v.Set(x); else v = x; }
	Token connect(const Slot& s, bool pop) override { return v.OnChanged().connect(s, pop); }
};
template <class P> struct Set0 { static bool can() { return true; } static void set(P& p, int v) { p->Set(v ? optional<int>(v) : null); } };
template <class P> struct Derived : Key
{
	P p; explicit Derived(const P& p_) : p(p_) { }
	int get() override { optional<int> r = p->Get(); return r ? *r : 0; }
	int sig() override { optional<int> r = GetValueFromSignal(p->OnChanged()); return r ? *r : 0; }
	template <class I> static void doSet(I* i, int v) { i->Set(v ? optional<int>(v) : null); }
	bool canSet() override { return dynamic_cast<IObservableValue<optional<int> >*>(p.get()); }
	void set(int v) override { doSet(dynamic_cast<IObservableValue<optional<int> >*>(p.get()), v); }
	Token connect(const Slot& s, bool pop) override { return p->OnChanged().connect(OptTo(s), pop); }
};
template <class P> struct Entry : Key
{
	P p; explicit Entry(const P& p_) : p(p_) { }
	int get() override { return p->Get(); }
	int sig() override { optional<bool> r = GetValueFromSignal(p->OnChanged()); return r ? *r : -1; }
	bool canSet() override { return dynamic_cast<IObservableValue<bool>*>(p.get()); }
	void set(int v) override { dynamic_cast<IObservableValue<bool>*>(p.get())->Set(v); }
	Token connect(const Slot& s, bool pop) override { return p->OnChanged().connect(BoolTo(s), pop); }
};
template <class P> std::shared_ptr<Key> derived(const P& p) { return std::make_shared<Derived<P> >(p); }
template <class P> std::shared_ptr<Key> entry(const P& p) { return std::make_shared<Entry<P> >(p); }
static void c(const char* op, int k = 0, int v = 0, int h = 0, std::vector<int> ls = std::vector<int>()) { call(op).i("k", k).i("v", v).i("h", h).li("ls", ls); }
static void rt(const char* op, int r = 0) { ret(op).i("r", r); }
static void act(int t, bool conn)
{
	int w = vs::rnd(0, 19), k = vs::rnd(1, W->nk); std::string kind = W->kind;
	if (w < 9)
	{
		int v = kind == "set" ? vs::rnd(0, 1) : vs::rnd(0, W->nv);
		if (kind == "val") { c("set", k, v); W->key[k]->set(v); rt("set"); return; }
		if (kind == "txn")
		{
			std::vector<int> ls(2, -1); ls[k - 1] = v; if (vs::chance(1, 2)) ls[2 - k] = vs::rnd(0, W->nv);
			c("commit", 0, 0, 0, ls);
			{
				auto tr = W->txn->StartTransaction();
				for (int j = 1; j <= 2; ++j) if (ls[j - 1] >= 0) { if (vs::chance(1, 3)) tr->Set(j, vs::rnd(1, 3)); if (ls[j - 1]) tr->Set(j, ls[j - 1]); else tr->Remove(j); if (vs::chance(1, 4)) tr->Set(7, vs::rnd(1, 9)); }
				tr->Commit();
			}
			rt("commit"); return;
		}
		if (W->key[k]->canSet() && vs::chance(1, 2)) { c("dset", k, v); W->key[k]->set(v); rt("dset"); return; }
		int g = vs::rnd(0, 9);
		if (g == 0) { c("clear"); if (kind == "dict") W->dict->Clear(); else W->set->Clear(); rt("clear"); return; }
		if (g == 1) { c("other"); if (kind == "dict") W->dict->Set(9, 1); else W->set->Add(9); rt("other"); return; }
		if (v == 0) { c("rm", k); if (kind == "dict") W->dict->Remove(k); else W->set->Remove(k); rt("rm"); return; }
		c("set", k, v); if (kind == "dict") W->dict->Set(k, v); else W->set->Add(k); rt("set");
	}
	else if (w < 12) { c("get", k); int r = W->key[k]->get(); rt("get", r); }
	else if (w < 14) { c("sig", k); int r = W->key[k]->sig(); rt("sig", r); }
	else
	{
		int h = 0; bool nw = false;
		{ vs::no_preempt np; for (int g = 1; g < W->nextH; ++g) if (W->hk[g] == 1) h = g; if (h == 0 || (conn && vs::chance(1, 2))) { h = 0; if (W->nextH < 7) { h = W->nextH++; nw = true; } } if (h) W->hk[h] = 2; }
		if (!h) return;
		if (nw)
		{
			bool pop = vs::chance(3, 4); const char* op = pop ? "conn" : "connq";
			c(op, k, 0, h); W->tok[h] = W->key[k]->connect(H(h, k), pop); rt(op); vs::no_preempt np; W->hk[h] = 1;
		}
		else { c("disc", 0, 0, h); W->tok[h].Reset(); rt("disc"); }
	}
}
void World::run()
{
	nk = 2; nv = vs::rnd(1, 3); Q = 1; int pop = 1, def = 0, v0 = 0, w = vs::rnd(0, 9);
	if (w < 4)
	{
		kind = "val"; nk = 1; Q = vs::rnd(1, 2); nv += Q - 1; pop = vs::rnd(0, 2); if (vs::chance(1, 2)) pop = 1; def = pop == 2 ? vs::rnd(0, nv) : 0; v0 = vs::rnd(0, nv); bool m = vs::chance(1, 3); shared_ptr<const Mutex> mx = make_shared_ptr<Mutex>();
		using namespace ObservableValuePolicies;
		if (pop == 1 && Q == 1) { typedef ObservableValue<int> O; key[1].reset(m ? new Plain<O>(mx, v0) : new Plain<O>(v0)); }
		else if (pop == 1) { typedef ObservableValue<int, ClassEq> O; key[1].reset(m ? new Plain<O>(mx, v0) : new Plain<O>(v0)); }
		else if (pop == 0) { typedef ObservableValue<int, ClassEq, DisabledPopulation> O; key[1].reset(m ? new Plain<O>(mx, v0) : new Plain<O>(v0)); }
		else { typedef ObservableValue<int, ClassEq, ConditionalPopulation> O; key[1].reset(m ? new Plain<O>(mx, v0, PopulateIfDiffers(def)) : new Plain<O>(v0, PopulateIfDiffers(def))); }
	}
	else if (w < 6)
	{
		kind = "dict"; dict = make_shared_ptr<MapObservableDictionary<int, int> >(); bool ro = vs::chance(1, 3);
		for (int k = 1; k < 3; ++k) { if (ro) key[k] = derived(GetDictionaryKeyValue(shared_ptr<IReadonlyObservableDictionary<int, int> >(dict), k)); else key[k] = derived(GetDictionaryKeyValue(dict, k)); }
	}
	else if (w < 8)
	{
		kind = "set"; set = make_shared_ptr<SortedObservableSet<int> >(); bool ro = vs::chance(1, 3);
		for (int k = 1; k < 3; ++k) { if (ro) key[k] = entry(GetSetEntry(shared_ptr<IReadonlyObservableSet<int> >(set), k)); else key[k] = entry(GetSetEntry(set, k)); }
	}
	else
	{
		kind = "txn"; txn = make_shared_ptr<TransactionalDictionary<int, int> >();
		for (int k = 1; k < 3; ++k) key[k] = derived(GetDictionaryKeyValue(shared_ptr<IReadonlyTransactionalDictionary<int, int> >(txn), k));
	}
	vs::ev("cfg").s("b", kind).i("q", Q).i("pop", pop).i("def", def).i("v", v0);
	nested = vs::chance(1, 2);
	for (int i = vs::rnd(0, 4); i > 0; --i) act(0, true);
	int nt = vs::rnd(0, 3);
	for (int t = 1; t <= nt; ++t) vs::spawn(t, [t]{ for (int i = vs::rnd(1, 3); i > 0; --i) act(t, vs::chance(1, 2)); });
	if (nt == 0) for (int i = vs::rnd(3, 12); i > 0; --i) act(0, vs::chance(1, 2));
	for (int t = 1; t <= nt; ++t) vs::join(t);
	for (int k = 1; k <= nk; ++k) { c("get", k); int r = key[k]->get(); rt("get", r); }
	for (int h = 1; h < nextH; ++h) if (hk[h] == 1) { c("disc", 0, 0, h); tok[h].Reset(); rt("disc"); }
}
int main(int argc, char** argv) { return vs::main(argc, argv, []{ World w; W = &w; w.run(); }); }
