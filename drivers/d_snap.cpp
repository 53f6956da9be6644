// Interface collections and their enumerators, from one thread.
#include "coll.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
using namespace stingray; using namespace coll;
static EnP en[4]; static RvP rv[3];
template <class C> struct Copier { static void copy(C& a, const C& b) { a = b; } static shared_ptr<C> clone(const C& b) { return make_shared_ptr<C>(b); } static const bool can = true; };
template <class C> struct NoCopier { static void copy(C&, const C&) { abort(); } static shared_ptr<C> clone(const C&) { abort(); } static const bool can = false; };
template <class C, template <class> class A, template <class> class CP> static void run(int ord)
{
	typedef typename C::ValueType VT;
	shared_ptr<C> p[3]; std::unique_ptr<Base> c[3];
	for (int i = 1; i < 3; ++i) { p[i] = make_shared_ptr<C>(); c[i].reset(new A<C>(p[i])); }
	std::string kind = c[1]->kind(); bool lst = kind == "list", md = kind == "mdict";
	vs::ev("cfg").s("b", kind).i("ord", ord);
	for (int s = 1; s < 4; ++s) { vs::ev("en").i("c", 1).s("op", "en").i("k", 0).i("s", s); en[s] = c[1]->en("en", 0); }
	for (int s = 1; s < 3; ++s) { vs::ev("rv").i("c", 1).i("s", s); rv[s] = c[1]->rv(); }
	int nk = vs::rnd(2, 4), nv = vs::rnd(1, 3), pe = vs::rnd(0, 40);
	for (int n = vs::rnd(3, 24); n > 0; --n)
	{
		int i = vs::chance(1, 5) ? 2 : 1, w = vs::rnd(0, 99), k = vs::rnd(0, nk - 1), s = vs::rnd(1, 3), d = vs::rnd(1, 2);
		if (w < 55 - pe / 2) { Op x = pick(kind, nk, nv); int r = apply(*c[i], x.o, x.k, x.v, x.ls); vs::ev("op").i("c", i).s("op", evname(x.o)).i("k", x.k).i("v", x.v).li("ls", x.ls).i("r", r); }
		else if (w < 60) { VI d = c[i]->dump(); vs::ev("dump").i("c", i).li("ls", d); }
		else if (w < 72) { int h = vs::rnd(0, 4); const char* how = h < 2 ? "en" : h == 2 ? "rev" : lst ? "rev" : h == 3 ? "find" : md && vs::chance(1, 2) ? "all" : "rfind"; en[s] = c[i]->en(how, k); vs::ev("en").i("c", i).s("op", how).i("k", k).i("s", s); }
		else if (w < 75) { rv[d] = c[i]->rv(); vs::ev("rv").i("c", i).i("s", d); }
		else if (w < 78) { en[s] = rv[d]->en(); vs::ev("enrv").i("c", d).i("s", s); }
		else if (w < 82) { if (CP<C>::can) { int j = vs::rnd(1, 2); if (vs::chance(1, 2)) CP<C>::copy(*p[i], *p[j]); else { p[i] = CP<C>::clone(*p[j]); c[i].reset(new A<C>(p[i])); } vs::ev("copy").i("c", i).i("s", j); } }
		else if (w < 84)
		{
			typedef typename C::ValueType V2; bool plain = false;
			if (En<Val>* e = dynamic_cast<En<Val>*>(en[s].get())) plain = e->plain;
			if (!plain) { VI got; make(p[i], en[s], rv[d], c[i], s, d, i); c[i].reset(new A<C>(p[i])); }
		}
		else
		{
			int o = vs::rnd(0, 4), r; const char* nm = o == 0 ? "valid" : o < 3 ? "get" : "next";
			try { if (o == 0) r = en[s]->valid(); else if (o < 3) r = en[s]->get(); else { en[s]->next(); r = 0; } } catch (const std::exception&) { r = -1; }
			vs::ev("step").i("s", s).s("op", nm).i("r", r);
		}
	}
	for (int i = 1; i < 3; ++i) { VI d = c[i]->dump(); vs::ev("dump").i("c", i).li("ls", d); }
	for (int i = 1; i < 3; ++i) { c[i].reset(); p[i].reset(); }
	for (int s = 1; s < 4; ++s) for (int x = 0; x < 12; ++x)
	{
		int r; bool v = en[s]->valid(); vs::ev("step").i("s", s).s("op", "valid").i("r", v); if (!v) break;
		r = en[s]->get(); vs::ev("step").i("s", s).s("op", "get").i("r", r); en[s]->next(); vs::ev("step").i("s", s).s("op", "next").i("r", 0);
	}
	for (int s = 1; s < 4; ++s) en[s].reset(); for (int s = 1; s < 3; ++s) rv[s].reset();
}
// construction from what an enumerator / a reversed enumerable yields
template <class C> static void make(shared_ptr<C>& p, EnP& e, RvP& r, std::unique_ptr<Base>&, int s, int d, int i)
{
	typedef typename C::EnT T;
	if (vs::chance(1, 2)) { p = make_shared_ptr<C>(static_cast<En<T>&>(*e).e); vs::ev("from").i("c", i).i("s", s); }
	else { p = make_shared_ptr<C>(static_cast<Rv<T>&>(*r).r); vs::ev("fromrv").i("c", i).i("s", d); }
}
template <class C, class T> struct W : public C { typedef T EnT; W() { } explicit W(const shared_ptr<IEnumerator<T> >& e) : C(e) { } explicit W(const shared_ptr<IEnumerable<T> >& e) : C(e) { } };
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		switch (vs::rnd(0, 15))
		{
		case 0: run<W<ArrayList<Val>, Val>, List, Copier>(1); break;
		case 1: run<W<SortedSet<Val>, Val>, SetC, Copier>(0); break;
		case 2: run<W<OrderedSet<Val>, Val>, SetC, Copier>(1); break;
		case 3: run<W<FlatSortedSet<Val>, Val>, SetC, Copier>(0); break;
		case 4: run<W<SortedMultiSet<Val>, Val>, MSet, Copier>(0); break;
		case 5: run<W<MapDictionary<Val, Val>, KV>, Dict, Copier>(0); break;
		case 6: run<W<OrderedDictionary<Val, Val>, KV>, Dict, Copier>(1); break;
		case 7: run<W<FlatMapDictionary<Val, Val>, KV>, Dict, Copier>(0); break;
		case 8: run<W<MultiMapDictionary<Val, Val>, KV>, MDict, Copier>(0); break;
		case 9: run<W<ArrayObservableList<Val>, Val>, List, NoCopier>(1); break;
		case 10: run<W<SortedObservableSet<Val>, Val>, SetC, NoCopier>(0); break;
		case 11: run<W<OrderedObservableSet<Val>, Val>, SetC, NoCopier>(1); break;
		case 12: run<W<SortedObservableMultiSet<Val>, Val>, MSet, NoCopier>(0); break;
		case 13: run<W<MapObservableDictionary<Val, Val>, KV>, Dict, NoCopier>(0); break;
		case 14: run<W<MultiMapObservableDictionary<Val, Val>, KV>, MDict, NoCopier>(0); break;
		default: run<W<MultiMapDictionary<Val, Val>, KV>, MDict, Copier>(0); break;
		}
	});
}
