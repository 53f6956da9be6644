#pragma once
// Uniform access to the interface collections: operations by name, elements as codes 10 * key + value (see spec/Coll.tla).
#include "drv.h"
#include <stingraykit/collection/IList.h>
#include <stingraykit/collection/ISet.h>
#include <stingraykit/collection/IMultiSet.h>
#include <stingraykit/collection/IDictionary.h>
#include <stingraykit/collection/IMultiDictionary.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <algorithm>
#include <memory>
namespace coll
{
	using namespace stingray;
	typedef std::vector<int> VI;
	// an element that shows whether it is read after its destruction
	struct Val
	{
		int v; Val(int v_ = 0) : v(v_) { } Val(const Val& o) : v(o.v) { } Val& operator = (const Val& o) { v = o.v; return *this; } ~Val() { *(volatile int*)&v = -77; }
		operator int () const { return v; }
		bool operator < (const Val& o) const { return v < o.v; } bool operator == (const Val& o) const { return v == o.v; } bool operator != (const Val& o) const { return v != o.v; }
	};
	typedef KeyValuePair<Val, Val> KV;
	inline int code(const Val& x) { return 10 * x.v; }
	inline int code(const KV& p) { return 10 * p.Key + p.Value; }
	struct Pred1 : public function_info<bool (const Val&)> { VI ls; explicit Pred1(const VI& l) : ls(l) { } bool operator () (const Val& x) const { return std::find(ls.begin(), ls.end(), 10 * x) != ls.end(); } };
	struct Pred2 : public function_info<bool (const Val&, const Val&)> { VI ls; explicit Pred2(const VI& l) : ls(l) { } bool operator () (const Val& k, const Val& v) const { return std::find(ls.begin(), ls.end(), 10 * k + v) != ls.end(); } };
	struct EnB { virtual ~EnB() { } virtual bool valid() = 0; virtual int get() = 0; virtual void next() = 0; };
	template <class T> struct En : EnB
	{
		shared_ptr<IEnumerator<T> > e; bool plain;
		En(const shared_ptr<IEnumerator<T> >& e_, bool p) : e(e_), plain(p) { }
		bool valid() { return e->Valid(); }
		int get() { T x = e->Get(); return plain ? code(x) / 10 : code(x); }
		void next() { e->Next(); }
	};
	typedef std::shared_ptr<EnB> EnP;
	template <class T> EnP mk(const shared_ptr<IEnumerator<T> >& e, bool plain = false) { return EnP(new En<T>(e, plain)); }
	struct RvB { virtual ~RvB() { } virtual EnP en() = 0; };
	template <class T> struct Rv : RvB { shared_ptr<IEnumerable<T> > r; explicit Rv(const shared_ptr<IEnumerable<T> >& r_) : r(r_) { } EnP en() { return mk<T>(r->GetEnumerator()); } };
	typedef std::shared_ptr<RvB> RvP;
	struct Base
	{
		virtual ~Base() { }
		virtual const char* kind() const = 0;
		virtual int op(const std::string& o, int k, int v, const VI& ls) = 0;
		virtual EnP en(const std::string& how, int k) = 0;
		virtual RvP rv() = 0;
		VI dump() { VI r; for (EnP e = en("en", 0); e->valid(); e->next()) r.push_back(e->get()); return r; }
	};
	// exceptions count as -1
	inline int apply(Base& b, const std::string& o, int k, int v, const VI& ls) { try { return b.op(o, k, v, ls); } catch (const std::exception&) { return -1; } }
	template <class I> struct List : Base
	{
		shared_ptr<I> p; explicit List(const shared_ptr<I>& p_) : p(p_) { }
		const char* kind() const { return "list"; }
		int op(const std::string& o, int k, int v, const VI& ls)
		{
			if (o == "count") return p->GetCount();
			if (o == "empty") return p->IsEmpty();
			if (o == "clear") return p->Clear(), 0;
			if (o == "rmwhere") return p->RemoveAll(Pred1(ls));
			if (o == "has") return p->Contains(v);
			if (o == "idx") { optional<size_t> r = p->IndexOf(v); return r ? int(*r) : -1; }
			if (o == "get") { Val x = -1; bool b = p->TryGet(k, x); return b ? 10 * x.v : -1; }
			if (o == "get!") return 10 * p->Get(k);
			if (o == "add") return p->Add(v), 0;
			if (o == "set") return p->Set(k, v), 0;
			if (o == "ins") return p->Insert(k, v), 0;
			if (o == "rmat") return p->RemoveAt(k), 0;
			if (o == "rm") return p->Remove(v);
			abort();
		}
		EnP en(const std::string& how, int) { return mk<Val>(how == "en" ? p->GetEnumerator() : p->Reverse()->GetEnumerator()); }
		RvP rv() { return RvP(new Rv<Val>(p->Reverse())); }
	};
	template <class I> struct SetC : Base
	{
		shared_ptr<I> p; explicit SetC(const shared_ptr<I>& p_) : p(p_) { }
		const char* kind() const { return "set"; }
		int op(const std::string& o, int k, int, const VI& ls)
		{
			if (o == "count") return p->GetCount();
			if (o == "empty") return p->IsEmpty();
			if (o == "clear") return p->Clear(), 0;
			if (o == "rmwhere") return p->RemoveWhere(Pred1(ls));
			if (o == "has") return p->Contains(k);
			if (o == "add") return p->Add(k);
			if (o == "rm") return p->Remove(k);
			abort();
		}
		EnP en(const std::string& how, int k) { return mk<Val>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
		RvP rv() { return RvP(new Rv<Val>(p->Reverse())); }
	};
	template <class I> struct MSet : Base
	{
		shared_ptr<I> p; explicit MSet(const shared_ptr<I>& p_) : p(p_) { }
		const char* kind() const { return "mset"; }
		int op(const std::string& o, int k, int, const VI& ls)
		{
			if (o == "count") return p->GetCount();
			if (o == "empty") return p->IsEmpty();
			if (o == "clear") return p->Clear(), 0;
			if (o == "rmwhere") return p->RemoveWhere(Pred1(ls));
			if (o == "has") return p->Contains(k);
			if (o == "cnt") return p->Count(k);
			if (o == "add") return p->Add(k), 0;
			if (o == "rm") return p->RemoveFirst(k);
			if (o == "rmall") return p->RemoveAll(k);
			abort();
		}
		EnP en(const std::string& how, int k) { return mk<Val>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
		RvP rv() { return RvP(new Rv<Val>(p->Reverse())); }
	};
	template <class I> struct Dict : Base
	{
		shared_ptr<I> p; explicit Dict(const shared_ptr<I>& p_) : p(p_) { }
		const char* kind() const { return "dict"; }
		int op(const std::string& o, int k, int v, const VI& ls)
		{
			if (o == "count") return p->GetCount();
			if (o == "empty") return p->IsEmpty();
			if (o == "clear") return p->Clear(), 0;
			if (o == "rmwhere") return p->RemoveWhere(Pred2(ls));
			if (o == "has") return p->ContainsKey(k);
			if (o == "get") { Val x = -1; bool b = p->TryGet(k, x); return b ? x.v : -1; }
			if (o == "get!") return p->Get(k);
			if (o == "add") return p->Add(k, v);
			if (o == "set") return p->Set(k, v), 0;
			if (o == "rm") return p->Remove(k);
			abort();
		}
		EnP en(const std::string& how, int k) { return mk<KV>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
		RvP rv() { return RvP(new Rv<KV>(p->Reverse())); }
	};
	template <class I> struct MDict : Base
	{
		shared_ptr<I> p; explicit MDict(const shared_ptr<I>& p_) : p(p_) { }
		const char* kind() const { return "mdict"; }
		int op(const std::string& o, int k, int v, const VI& ls)
		{
			if (o == "count") return p->GetCount();
			if (o == "empty") return p->IsEmpty();
			if (o == "clear") return p->Clear(), 0;
			if (o == "rmwhere") return p->RemoveWhere(Pred2(ls));
			if (o == "has") return p->ContainsKey(k);
			if (o == "cnt") return p->CountKey(k);
			if (o == "get") { Val x = -1; bool b = p->TryGetFirst(k, x); return b ? x.v : -1; }
			if (o == "get!") return p->GetFirst(k);
			if (o == "add") return p->Add(k, v), 0;
			if (o == "rm") return p->RemoveFirst(k);
			if (o == "rmv") return p->RemoveFirst(Val(k), optional<Val>(Val(v)));
			if (o == "rmall") return p->RemoveAll(k);
			abort();
		}
		EnP en(const std::string& how, int k) { return how == "all" ? mk<Val>(p->GetAll(k), true) : mk<KV>(how == "en" ? p->GetEnumerator() : how == "rev" ? p->Reverse()->GetEnumerator() : how == "find" ? p->Find(k) : p->ReverseFind(k)); }
		RvP rv() { return RvP(new Rv<KV>(p->Reverse())); }
	};
	struct Op { std::string o; int k, v; VI ls; };
	// a random operation; keys < nk, values < nv
	inline Op pick(const std::string& kind, int nk, int nv, bool reads = true)
	{
		Op x; x.k = vs::rnd(0, nk - 1); x.v = vs::rnd(0, nv - 1);
		bool lst = kind == "list", flat = kind == "set" || kind == "mset"; if (flat) x.v = 0;
		static const char* L[] = { "add", "ins", "set", "rmat", "rm", "add", "ins", "set", "rmwhere", "clear", "get", "has", "idx", "count", "get!" };
		static const char* S[] = { "add", "add", "add", "rm", "rm", "add", "add", "rm", "rmwhere", "clear", "has", "has", "count", "empty", "has" };
		static const char* MS[] = { "add", "add", "add", "rm", "rm", "add", "add", "rmall", "rmwhere", "clear", "has", "cnt", "count", "empty", "cnt" };
		static const char* D[] = { "add", "add", "set", "rm", "rm", "set", "set", "add", "rmwhere", "clear", "has", "get", "count", "empty", "get!" };
		static const char* MD[] = { "add", "add", "add", "rm", "rmv", "add", "add", "rmall", "rmwhere", "clear", "has", "cnt", "get", "empty", "get!" };
		int w = vs::rnd(0, reads ? 14 : 9); if (w == 9 && vs::chance(1, 2)) w = 0;
		x.o = lst ? L[w] : kind == "set" ? S[w] : kind == "mset" ? MS[w] : kind == "dict" ? D[w] : MD[w];
		if (x.o == "rmwhere") for (int k = 0; k < (lst ? 1 : nk); ++k) for (int v = 0; v < (flat ? 1 : nv); ++v) if (vs::chance(1, 3)) x.ls.push_back(lst ? 10 * v : 10 * k + v);
		return x;
	}
	inline std::string evname(const std::string& o) { return o == "get!" ? "get" : o; }
}
