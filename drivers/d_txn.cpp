// Transactional collections: transactions, readers, listeners and waiting starters on three threads.
#include "coll.h"
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/ObservableCollectionLocker.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
using namespace stingray; using namespace coll; using namespace drv;
static int num(CollectionOp op) { return op == CollectionOp::Added ? 1 : op == CollectionOp::Updated ? 2 : 3; }
static CollectionOp opof(int o) { return o == 1 ? CollectionOp(CollectionOp::Added) : o == 2 ? CollectionOp(CollectionOp::Updated) : CollectionOp(CollectionOp::Removed); }
static int dcode(const Val& x) { return 10 * x.v; }
static int dcode(const KeyValuePair<Val, Val>& p) { return 10 * p.Key + p.Value; }
static int dcode(const KeyValuePair<size_t, Val>& p) { return 10 * int(p.Key) + p.Value; }
template <class D> static VI list(const D& d) { VI r; auto e = d->GetEnumerator(); for (; e->Valid(); e->Next()) { auto x = e->Get(); r.push_back(1000 * num(x.Op) + dcode(x.Item)); } return r; }
struct DiffB { virtual ~DiffB() { } virtual VI get() = 0; };
template <class D> struct DiffI : DiffB { D d; explicit DiffI(const D& d_) : d(d_) { } VI get() { return list(d); } };
typedef std::shared_ptr<DiffB> DiffP;
// the committed side
struct RoB { virtual ~RoB() { } virtual int op(const std::string& o, int k, int v) = 0; virtual EnP en(const std::string& how, int k) = 0; };
static const char* kindof; static int nk, nv;
template <class I> struct RoList : RoB
{
	shared_ptr<I> p; explicit RoList(const shared_ptr<I>& p_) : p(p_) { }
	int op(const std::string& o, int k, int v)
	{
		if (o == "count") return p->GetCount();
		if (o == "empty") return p->IsEmpty();
		if (o == "has") return p->Contains(v);
		if (o == "idx") { optional<size_t> r = p->IndexOf(v); return r ? int(*r) : -1; }
		if (o == "get") { Val x = -1; bool b = p->TryGet(k, x); return b ? 10 * x.v : -1; }
		try { return 10 * p->Get(k); } catch (const std::exception&) { return -1; }
	}
	EnP en(const std::string& how, int) { return mk<Val>(how == "en" ? p->GetEnumerator() : p->Reverse()->GetEnumerator()); }
};
template <class I> struct RoSet : RoB
{
	shared_ptr<I> p; explicit RoSet(const shared_ptr<I>& p_) : p(p_) { }
	int op(const std::string& o, int k, int) { return o == "count" ? int(p->GetCount()) : o == "empty" ? p->IsEmpty() : p->Contains(k); }
	EnP en(const std::string& how, int k) { return mk<Val>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
};
template <class I> struct RoDict : RoB
{
	shared_ptr<I> p; explicit RoDict(const shared_ptr<I>& p_) : p(p_) { }
	int op(const std::string& o, int k, int)
	{
		if (o == "count") return p->GetCount();
		if (o == "empty") return p->IsEmpty();
		if (o == "has") return p->ContainsKey(k);
		if (o == "get") { Val x = -1; bool b = p->TryGet(k, x); return b ? x.v : -1; }
		try { return p->Get(k); } catch (const std::exception&) { return -1; }
	}
	EnP en(const std::string& how, int k) { return mk<KV>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
};
// the transaction of one thread
struct TxB { virtual ~TxB() { } virtual Base& base() = 0; virtual void commit() = 0; virtual void revert() = 0; virtual bool dirty() = 0; virtual DiffP diff() = 0; virtual void apply(int o, int k, int v) = 0; };
template <class DE> struct MkItem;
template <> struct MkItem<DiffEntry<Val> > { static Val mk(int k, int) { return k; } };
template <> struct MkItem<DiffEntry<KV> > { static KV mk(int k, int v) { return KV(k, v); } };
template <> struct MkItem<DiffEntry<KeyValuePair<size_t, Val> > > { static KeyValuePair<size_t, Val> mk(int k, int v) { return KeyValuePair<size_t, Val>(k, v); } };
template <class T, template <class> class A> struct Tx : TxB
{
	typename T::TransactionTypePtr p; A<typename T::TransactionType> a;
	explicit Tx(const typename T::TransactionTypePtr& p_) : p(p_), a(p_) { }
	Base& base() { return a; }
	void commit() { p->Commit(); }
	void revert() { p->Revert(); }
	bool dirty() { return p->IsDirty(); }
	DiffP diff() { auto d = p->Diff(); return DiffP(new DiffI<decltype(d)>(d)); }
	void apply(int o, int k, int v) { typedef typename T::TransactionType::DiffEntryType DE; p->Apply(DE(opof(o), MkItem<DE>::mk(k, v))); }
};
struct Kept { DiffP d; VI first; };
static std::unique_ptr<RoB> C; static std::unique_ptr<TxB> tx[3]; static Token tok[5]; static EnP en[7]; static DiffP dv[7]; static std::vector<Kept>* kept; static CancellationToken* can[3]; static bool throwing;
static std::function<Token (int, bool)> connect_; static std::function<ObservableCollectionLockerPtr ()> lock_; static std::function<TxB* (const ICancellationToken*)> start_;
static void cl(const char* op, int k = 0, int v = 0, int x = 0, const VI& ls = VI()) { call(op).i("k", k).i("v", v).i("x", x).li("ls", ls); }
static void rt(const char* op, int r = 0, const VI& ls = VI()) { ret(op).i("r", r).li("ls", ls); }
template <class Sig> struct Slot;
template <class D> struct Slot<void (const D&)> : public function_info<void (const D&)>
{
	int x; explicit Slot(int x_) : x(x_) { }
	void operator () (const D& d) const
	{
		VI v = list(d); vs::ev("note").i("x", x).li("ls", v);
		{ vs::no_preempt np; Kept k; k.d = DiffP(new DiffI<D>(d)); k.first = v; kept->push_back(k); }
		if (throwing && vs::chance(1, 3)) throw TestError(1);
	}
};
static const char* roop() { static const char* L[] = { "count", "empty", "has", "idx", "get", "get!" }; static const char* S[] = { "count", "empty", "has", "has", "has", "has" }; static const char* D[] = { "count", "empty", "has", "get", "get!", "get" }; int w = vs::rnd(0, 5); return *kindof == 'l' ? L[w] : *kindof == 's' ? S[w] : D[w]; }
static const char* how() { static const char* H[] = { "en", "en", "rev", "find", "rfind" }; return H[vs::rnd(0, *kindof == 'l' ? 2 : 4)]; }
static void read()
{
	int w = vs::rnd(0, 9), t = vs::tid(), s = 2 * t + vs::rnd(1, 2), k = vs::rnd(0, nk - 1), v = *kindof == 's' ? 0 : vs::rnd(0, nv - 1);
	if (w < 4) { std::string o = roop(), n = evname(o); cl(n.c_str(), k, v); int r = C->op(o, k, v); rt(n.c_str(), r); }
	else if (w < 6) { cl("dump"); VI d; for (EnP e = C->en("en", 0); e->valid(); e->next()) d.push_back(e->get()); rt("dump", 0, d); }
	else { const char* h = how(); cl(h, k, 0, s); en[s] = C->en(h, k); rt(h); }
}
static void step()
{
	int s = 2 * vs::tid() + vs::rnd(1, 2); if (!en[s]) return;
	int o = vs::rnd(0, 4), r; const char* nm = o == 0 ? "valid" : o < 3 ? "get" : "next";
	try { if (o == 0) r = en[s]->valid(); else if (o < 3) r = en[s]->get(); else { en[s]->next(); r = 0; } } catch (const std::exception&) { r = -1; }
	vs::ev("step").i("s", s).s("op", nm).i("r", r);
}
static void denum() { int s = 2 * vs::tid() + vs::rnd(1, 2); if (!dv[s]) return; VI d = dv[s]->get(); vs::ev("denum").i("s", s).li("ls", d); }
static void conn(int x, bool pop) { const char* n = pop ? "conn" : "connf"; cl(n, 0, 0, x); Token t = connect_(x, pop); tok[x] = std::move(t); rt(n); }
static void disc(int x) { cl("disc", 0, 0, x); tok[x].Reset(); rt("disc"); }
static void commit() { cl("commit"); tx[vs::tid()]->commit(); rt("commit"); }
static void end() { int t = vs::tid(); cl("end"); tx[t].reset(); rt("end"); }
static void start()
{
	int t = vs::tid(), x = vs::rnd(0, 3) ; if (x == 3) x = 0; int r = 0; TimedCancellationToken* tt = x == 2 ? new TimedCancellationToken(TimeDuration::FromMilliseconds(2)) : nullptr; int from = vs::now_ms();
	cl("start", 0, 0, x);
	try { TxB* p = start_(x == 0 ? nullptr : x == 1 ? (const ICancellationToken*)can[t] : tt); tx[t].reset(p); r = 1; }
	catch (const OperationCancelledException&) { r = 0; } catch (const TimeoutException&) { r = vs::now_ms() - from >= 2 ? 2 : 3; }
	rt("start", r); delete tt;
}
static void txop()
{
	int t = vs::tid(), w = vs::rnd(0, 99), s = 2 * t + vs::rnd(1, 2), k = vs::rnd(0, nk - 1), v = vs::rnd(0, nv - 1); TxB& x = *tx[t];
	if (w < 45) { Op o = pick(kindof, nk, nv); int r = apply(x.base(), o.o, o.k, o.v, o.ls); vs::ev("top").s("op", evname(o.o)).i("k", o.k).i("v", o.v).li("ls", o.ls).i("r", r); }
	else if (w < 53) { VI d = x.base().dump(); vs::ev("tdump").li("ls", d); }
	else if (w < 62) { const char* h = how(); en[s] = x.base().en(h, k); vs::ev("ten").s("op", h).i("k", k).i("s", s); }
	else if (w < 68) { bool r = x.dirty(); vs::ev("tdirty").i("r", r); }
	else if (w < 75) { dv[s] = x.diff(); vs::ev("tdiff").i("s", s); if (vs::chance(1, 2)) { VI d = dv[s]->get(); vs::ev("denum").i("s", s).li("ls", d); } }
	else if (w < 82)
	{
		int o = vs::chance(1, 8) ? 2 : vs::chance(1, 2) ? 1 : 3, r = 1; if (*kindof == 's') v = 0;
		try { x.apply(o, k, v); } catch (const std::exception&) { r = 0; }
		vs::ev("tapply").i("op", o).i("k", k).i("v", v).i("r", r);
	}
	else if (w < 86) { x.revert(); vs::ev("trevert"); }
	else if (w < 94) commit();
	else { if (vs::chance(2, 3)) { VI d = x.base().dump(); vs::ev("tdump").li("ls", d); commit(); } end(); }
}
static void act(int x, bool writer)
{
	int w = vs::rnd(0, 19), t = vs::tid();
	if (w < (writer ? 13 : 3)) { if (tx[t]) txop(); else start(); }
	else if (w < 15) read();
	else if (w < 16) step();
	else if (w < 17) denum();
	else if (w < 18) { if (tok[x]) disc(x); else conn(x, true); }
	else if (w < 19)
	{
		cl("lock"); ObservableCollectionLockerPtr l = lock_(); rt("lock");
		for (int i = vs::rnd(1, 3); i > 0; --i) if (tx[t] && vs::chance(1, 3)) commit(); else read();
		if (!tok[x] && vs::chance(2, 3)) { read(); conn(x, vs::chance(1, 3)); if (tx[t] && vs::chance(1, 2)) commit(); }
		cl("unlock"); l.reset(); rt("unlock");
	}
	else { int y = vs::rnd(0, 2); call("cancel").i("k", 0).i("v", 0).i("x", y).li("ls", VI()); can[y]->Cancel(); rt("cancel"); }
}
template <class T, template <class> class A, template <class> class RO> static void run(const char* kind, int ord)
{
	shared_ptr<T> p = make_shared_ptr<T>(); C.reset(new RO<T>(p)); kindof = kind; kept = new std::vector<Kept>(); for (int i = 0; i < 3; ++i) can[i] = new CancellationToken();
	typedef Slot<typename T::OnChangedSignature> S;
	connect_ = [p](int x, bool pop) { return p->OnChanged().connect(S(x), pop); }; lock_ = [p] { return make_shared_ptr<ObservableCollectionLocker>(*p); };
	start_ = [p](const ICancellationToken* t) -> TxB* { typename T::TransactionTypePtr x = t ? p->StartTransaction(*t) : p->StartTransaction(); return new Tx<T, A>(x); };
	vs::ev("cfg").s("b", kind).i("ord", ord);
	nk = vs::rnd(1, 4); nv = vs::rnd(1, 3); throwing = vs::chance(1, 4); int mt = vs::rnd(0, 4);
	if (vs::chance(1, 2)) conn(1, true);
	start(); if (tx[0]) { for (int i = vs::rnd(0, 4); i > 0; --i) if (tx[0]) txop(); if (tx[0] && vs::chance(1, 2)) commit(); if (tx[0] && vs::chance(1, 2)) end(); }
	if (mt)
	{
		vs::spawn(1, []{ bool wr = vs::chance(1, 2); for (int i = vs::rnd(1, 8); i > 0; --i) act(2, wr); if (tx[1]) { if (vs::chance(1, 2)) commit(); end(); } });
		if (mt > 2) vs::spawn(2, []{ bool wr = vs::chance(1, 2); for (int i = vs::rnd(1, 6); i > 0; --i) act(3, wr); if (tx[2]) end(); });
		for (int i = vs::rnd(1, 10); i > 0; --i) act(1, true);
		if (tx[0]) { if (vs::chance(1, 2)) commit(); end(); }
		vs::join(1); if (mt > 2) vs::join(2);
	}
	else { for (int i = vs::rnd(2, 24); i > 0; --i) act(vs::rnd(1, 3), true); if (tx[0]) { if (vs::chance(1, 2)) commit(); end(); } }
	cl("dump"); VI d; for (EnP e = C->en("en", 0); e->valid(); e->next()) d.push_back(e->get()); rt("dump", 0, d);
	for (size_t i = 0; i < kept->size(); ++i) { VI n = (*kept)[i].d->get(); vs::ev("again").li("ls", (*kept)[i].first).li("now", n); }
	for (int s = 1; s < 7; ++s)
	{
		for (int x = 0; en[s] && x < 12; ++x)
		{
			int r; bool v = en[s]->valid(); vs::ev("step").i("s", s).s("op", "valid").i("r", v); if (!v) break;
			r = en[s]->get(); vs::ev("step").i("s", s).s("op", "get").i("r", r); en[s]->next(); vs::ev("step").i("s", s).s("op", "next").i("r", 0);
		}
		if (dv[s]) { VI n = dv[s]->get(); vs::ev("denum").i("s", s).li("ls", n); }
		en[s].reset(); dv[s].reset();
	}
	delete kept; for (int x = 1; x < 5; ++x) if (tok[x]) disc(x);
	connect_ = nullptr; lock_ = nullptr; start_ = nullptr; C.reset(); p.reset(); for (int i = 0; i < 3; ++i) delete can[i];
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		switch (vs::rnd(0, 2))
		{
		case 0: run<TransactionalList<Val, comparers::Equals>, List, RoList>("list", 1); break;
		case 1: run<TransactionalSet<Val>, SetC, RoSet>("set", 0); break;
		default: run<TransactionalDictionary<Val, Val>, Dict, RoDict>("dict", 0); break;
		}
	});
}
