// Observable collections: modifiers, readers and connecting listeners on three threads.
#include "coll.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
using namespace stingray; using namespace coll; using namespace drv;
static int num(CollectionOp op) { return op == CollectionOp::Added ? 1 : op == CollectionOp::Updated ? 2 : 3; }
static void note(int x, CollectionOp op, int k, int v) { vs::ev("note").i("x", x).i("o", num(op)).i("k", k).i("v", v); }
template <class S> struct Slot;
template <> struct Slot<void (CollectionOp, size_t, const Val&)> : public function_info<void (CollectionOp, size_t, const Val&)> { int x; explicit Slot(int x_) : x(x_) { } void operator () (CollectionOp o, size_t i, const Val& v) const { note(x, o, i, v); } };
template <> struct Slot<void (CollectionOp, const Val&)> : public function_info<void (CollectionOp, const Val&)> { int x; explicit Slot(int x_) : x(x_) { } void operator () (CollectionOp o, const Val& k) const { note(x, o, k, 0); } };
template <> struct Slot<void (CollectionOp, const Val&, const Val&)> : public function_info<void (CollectionOp, const Val&, const Val&)> { int x; explicit Slot(int x_) : x(x_) { } void operator () (CollectionOp o, const Val& k, const Val& v) const { note(x, o, k, v); } };
template <> struct Slot<void (CollectionOp, Val, Val)> : public Slot<void (CollectionOp, const Val&, const Val&)> { explicit Slot(int x_) : Slot<void (CollectionOp, const Val&, const Val&)>(x_) { } };
static std::unique_ptr<Base> C; static Token tok[5]; static int nk, nv; static bool mt;
static std::function<Token (int, bool)> connect_; static std::function<ObservableCollectionLockerPtr ()> lock_;
static void cl(const char* op, int k = 0, int v = 0, int x = 0, const VI& ls = VI()) { call(op).i("k", k).i("v", v).i("x", x).li("ls", ls); }
static void rt(const char* op, int r = 0, const VI& ls = VI()) { ret(op).i("r", r).li("ls", ls); }
static void oper() { Op o = pick(C->kind(), nk, nv); std::string n = evname(o.o); cl(n.c_str(), o.k, o.v, 0, o.ls); int r = apply(*C, o.o, o.k, o.v, o.ls); rt(n.c_str(), r); }
static void dump() { cl("dump"); VI d = C->dump(); rt("dump", 0, d); }
static void conn(int x, bool pop) { const char* n = pop ? "conn" : "connf"; cl(n, 0, 0, x); Token t = connect_(x, pop); tok[x] = std::move(t); rt(n); }
static void disc(int x) { cl("disc", 0, 0, x); tok[x].Reset(); rt("disc"); }
// thread t owns the listeners xs
static void act(const VI& xs, bool writer)
{
	int w = vs::rnd(0, 19), x = xs[vs::rnd(0, xs.size() - 1)];
	if (w < (writer ? 13 : 5)) oper();
	else if (w < 15) { if (tok[x]) disc(x); else conn(x, true); }
	else if (w < 17) dump();
	else if (w < 19 || tok[x])
	{
		cl("lock"); ObservableCollectionLockerPtr l = lock_(); rt("lock");
		for (int i = vs::rnd(1, 3); i > 0; --i) if (vs::chance(1, 4)) dump(); else oper();
		if (!tok[x] && vs::chance(1, 2)) { dump(); conn(x, vs::chance(1, 3)); if (vs::chance(1, 2)) oper(); }
		cl("unlock"); l.reset(); rt("unlock");
	}
	else { cl("lock"); ObservableCollectionLockerPtr l = lock_(); rt("lock"); dump(); conn(x, false); cl("unlock"); l.reset(); rt("unlock"); }
}
template <class T, template <class> class A> static void run(int ord)
{
	shared_ptr<T> p = make_shared_ptr<T>(); C.reset(new A<T>(p));
	typedef Slot<typename T::OnChangedSignature> S;
	connect_ = [p](int x, bool pop) { return p->OnChanged().connect(S(x), pop); }; lock_ = [p] { return p->Lock(); };
	vs::ev("cfg").s("b", C->kind()).i("ord", ord);
	nk = vs::rnd(1, 3); nv = vs::rnd(1, 2); mt = vs::chance(3, 4);
	for (int i = vs::rnd(0, 4); i > 0; --i) oper();
	if (vs::chance(1, 2)) conn(1, true);
	if (mt)
	{
		vs::spawn(1, []{ VI x; x.push_back(3); bool wr = vs::chance(1, 2); for (int i = vs::rnd(1, 4); i > 0; --i) act(x, wr); });
		bool two = vs::chance(1, 2); if (two) vs::spawn(2, []{ VI x; x.push_back(4); bool wr = vs::chance(1, 2); for (int i = vs::rnd(1, 3); i > 0; --i) act(x, wr); });
		VI x; x.push_back(1); x.push_back(2); for (int i = vs::rnd(1, 5); i > 0; --i) act(x, true);
		vs::join(1); if (two) vs::join(2);
	}
	else { VI x; for (int i = 1; i < 5; ++i) x.push_back(i); for (int i = vs::rnd(2, 14); i > 0; --i) act(x, true); }
	dump();
	for (int x = 1; x < 5; ++x) if (tok[x]) disc(x);
	connect_ = nullptr; lock_ = nullptr; C.reset(); p.reset();
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		switch (vs::rnd(0, 8))
		{
		case 0: run<ArrayObservableList<Val>, List>(1); break;
		case 1: run<SortedObservableSet<Val>, SetC>(0); break;
		case 2: run<OrderedObservableSet<Val>, SetC>(1); break;
		case 3: run<FlatSortedObservableSet<Val>, SetC>(0); break;
		case 4: run<SortedObservableMultiSet<Val>, MSet>(0); break;
		case 5: run<MapObservableDictionary<Val, Val>, Dict>(0); break;
		case 6: run<FlatMapObservableDictionary<Val, Val>, Dict>(0); break;
		case 7: run<OrderedObservableDictionary<Val, Val>, Dict>(1); break;
		default: run<MultiMapObservableDictionary<Val, Val>, MDict>(0); break;
		}
	});
}
