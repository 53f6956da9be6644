// Ranges and enumerables: random compositions of adapters, random walks over them.
#include "drv.h"
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <stingraykit/collection/ToRange.h>
#include <stingraykit/collection/Transformers.h>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
using namespace stingray; using namespace drv;
typedef std::vector<int> Vec;
static void bad(const char* what) { vs::ev("bad").s("what", what); }
static const int Exc = -1, WalkFirst = 0, WalkNext = 1, WalkLast = 2, WalkPrev = 3, WalkBegin = 4, WalkEnd = 5;
template <class F> static int val(F f) { try { return f(); } catch (const std::exception&) { return Exc; } }
struct Trf : function_info<int (int)> { int a; explicit Trf(int a_) : a(a_) { } int operator () (int x) const { return (x * a + 1) % 97; } };
struct Prd : function_info<bool (int)> { int m, r; Prd(int m_, int r_) : m(m_), r(r_) { } bool operator () (int x) const { return x % m == r; } };
struct Zp : function_info<int (int, int)> { int operator () (int a, int b) const { return (a * 10 + b) % 97; } };
struct Fld : function_info<int (int, int)> { int operator () (int a, int b) const { return (a * 3 + b) % 101; } };
struct Bs { virtual ~Bs() { } int v; explicit Bs(int v_) : v(v_) { } }; struct Odd : Bs { explicit Odd(int v_) : Bs(v_) { } };
struct OddVal : function_info<int (const shared_ptr<Odd>&)> { int operator () (const shared_ptr<Odd>& p) const { return p->v; } };
static std::vector<std::shared_ptr<void> > g_keep;
template <class T> static T& keep(const T& t) { std::shared_ptr<T> p = std::make_shared<T>(t); g_keep.push_back(p); return *p; }
// --- a range of any type behind one type
struct IR
{
	virtual ~IR() { } virtual IR* clone() const = 0; virtual bool valid() const = 0; virtual int get() const = 0; virtual void walk(int w) = 0; virtual bool equals(const IR& o) const = 0;
	virtual size_t pos() const = 0; virtual size_t size() const = 0; virtual void move(int d) = 0; virtual int minus(const IR& o) const = 0; virtual Vec all() const = 0; virtual Vec back() const = 0;
};
template <class R> struct HolderBase : IR
{
	typedef HolderBase Base; std::unique_ptr<R> r; explicit HolderBase(const R& r_) : r(new R(r_)) { }
	static const R& of(const IR& o) { return *dynamic_cast<const HolderBase&>(o).r; }
	bool valid() const { bool v = r->Valid(); if (v != (bool)*r) bad("range: operator bool"); return v; }
	int get() const { return vs::chance(1, 2) ? r->Get() : **r; }
	void walk(int w) { switch (w) { case WalkFirst: r->First(); break; case WalkNext: if (vs::chance(1, 2)) r->Next(); else ++*r; break; case WalkLast: r->Last(); break; case WalkPrev: if (vs::chance(1, 2)) r->Prev(); else --*r; break; case WalkBegin: r.reset(new R(r->begin())); break; default: r.reset(new R(r->end())); } }
	bool equals(const IR& o) const { bool e = *r == of(o); if (e == (*r != of(o))) bad("range: == and != agree"); return e; }
	size_t pos() const { throw std::logic_error("ra"); } size_t size() const { throw std::logic_error("ra"); } void move(int) { throw std::logic_error("ra"); } int minus(const IR&) const { throw std::logic_error("ra"); }
	Vec all() const { Vec v; if (vs::chance(1, 2)) for (auto&& x : *r) v.push_back(x); else for (R i = r->begin(), e = r->end(); i != e; i++) v.push_back(*i); return v; }
	Vec back() const { Vec v; if (vs::chance(1, 2)) for (R i = r->end(), b = r->begin(); i != b; ) { --i; v.push_back(*i); } else { R i(*r); i.Last(); R b(r->begin()); if (i.Valid()) for (;;) { v.push_back(i.Get()); if (i == b) break; i.Prev(); } } return v; }
};
template <class R, bool RA> struct Holder : HolderBase<R> { explicit Holder(const R& r) : HolderBase<R>(r) { } IR* clone() const { return new Holder(*this->r); } };
template <class R> struct Holder<R, true> : HolderBase<R>
{
	explicit Holder(const R& r) : HolderBase<R>(r) { } IR* clone() const { return new Holder(*this->r); }
	size_t pos() const { return this->r->GetPosition(); } size_t size() const { return this->r->GetSize(); }
	void move(int d) { switch (vs::rnd(0, 4)) { case 0: *this->r += d; break; case 1: *this->r -= -d; break; case 2: { R t(*this->r + d); this->r.reset(new R(t)); break; } default: this->r->Move(d); } }
	int minus(const IR& o) const { return *this->r - this->of(o); }
};
struct AnyRange : Range::RangeBase<AnyRange, int, std::bidirectional_iterator_tag>
{
	std::unique_ptr<IR> p; explicit AnyRange(IR* p_) : p(p_) { } AnyRange(const AnyRange& o) : p(o.p->clone()) { } AnyRange& operator = (const AnyRange& o) { p.reset(o.p->clone()); return *this; }
	bool Valid() const { return p->valid(); } int Get() const { return p->get(); } bool Equals(const AnyRange& o) const { return p->equals(*o.p); }
	AnyRange& First() { p->walk(WalkFirst); return *this; } AnyRange& Next() { p->walk(WalkNext); return *this; } AnyRange& Last() { p->walk(WalkLast); return *this; } AnyRange& Prev() { p->walk(WalkPrev); return *this; }
	size_t GetPosition() const { return p->pos(); } size_t GetSize() const { return p->size(); } AnyRange& Move(int d) { p->move(d); return *this; }
};
typedef AnyRange AR;
template <bool RA, class R> static AR any(const R& r) { return AR(new Holder<R, RA>(r)); }
struct FragSum : function_info<int (const Range::IteratorRange<Vec::const_iterator>&)> { int operator () (Range::IteratorRange<Vec::const_iterator> f) const { int s = 0; for (; f.Valid(); f.Next()) s += f.Get(); return s % 97; } };
struct BsVal : function_info<int (const shared_ptr<Bs>&)> { int operator () (const shared_ptr<Bs>& p) const { return p->v; } };
struct ToRng : function_info<Range::IteratorRange<Vec::const_iterator> (const Vec&)> { Range::IteratorRange<Vec::const_iterator> operator () (const Vec& v) const { return ToRange(v); } };
static Vec rndVec(int n, bool sorted = false) { Vec v; for (int k = vs::rnd(0, n); k > 0; --k) v.push_back(vs::rnd(0, 6)); if (sorted) std::sort(v.begin(), v.end()); return v; }
static vs::ev& put(vs::ev& e, const char* n, const Vec& v) { e.li(n, v); return e; }
static void evList(const char* op, const Vec& v, int ra) { vs::ev e(op); put(e, "s", v); e.i("ra", ra); }
static void evNest(const std::vector<Vec>& v) { vs::ev("nest").lli("ss", v); }
static void evN(const char* op, int n) { vs::ev(op).i("n", n); }
static void evFlt(int m, int r) { vs::ev("flt").i("m", m).i("r", r); }
static std::vector<Vec> rndNest() { std::vector<Vec> v; for (int k = vs::rnd(0, 4); k > 0; --k) v.push_back(vs::chance(1, 2) ? Vec() : rndVec(3)); return v; }
struct El { AR r; bool ra, lax; }; // lax: the value behind the end is not defined
static El srcRange()
{
	Vec v = rndVec(5); bool ra = true;
	switch (vs::rnd(0, 10))
	{
	case 0: { std::list<int>& c = keep(std::list<int>(v.begin(), v.end())); evList("push", v, 1); return El{any<true>(ToRange(c)), true, false}; }
	case 1: { std::set<int>& c = keep(std::set<int>(v.begin(), v.end())); evList("push", Vec(c.begin(), c.end()), 1); return El{any<true>(ToRange(c)), true, false}; }
	case 2: { std::map<int, int> m; for (size_t i = 0; i < v.size(); ++i) m[v[i]] = (v[i] * 5 + 2) % 7; std::map<int, int>& c = keep(m); Vec w; bool k = vs::chance(1, 2); for (auto& p : c) w.push_back(k ? p.first : p.second); evList("push", w, 1); return El{k ? any<true>(Range::MapKeys(ToRange(static_cast<const std::map<int, int>&>(c)))) : any<true>(Range::MapValues(ToRange(static_cast<const std::map<int, int>&>(c)))), true, false}; }
	case 3: { int x = vs::rnd(0, 6); evList("push", Vec(1, x), 1); return El{any<true>(Range::Single(x)), true, false}; }
	case 4: { std::vector<shared_ptr<Bs> > b; for (size_t i = 0; i < v.size(); ++i) b.push_back(v[i] % 2 ? shared_ptr<Bs>(make_shared_ptr<Odd>(v[i])) : make_shared_ptr<Bs>(v[i])); const std::vector<shared_ptr<Bs> >& c = keep(b); evList("push", v, 1); evFlt(2, 1); return El{any<false>(Range::Transform(ToRange(c) | OfType<shared_ptr<Odd> >(), OddVal())), false, true}; }
	case 5: { const std::vector<Vec>& c = keep(rndNest()); evNest(c); return El{any<false>(Range::Flatten(ToRange(c))), false, false}; }
	case 6: { std::vector<Vec> n = rndNest(); const std::list<std::list<int> >& c = [&] () -> const std::list<std::list<int> >& { std::list<std::list<int> > l; for (auto& x : n) l.push_back(std::list<int>(x.begin(), x.end())); return keep(l); }(); evNest(n); return El{any<false>(Range::Flatten(ToRange(c))), false, false}; }
	case 7: // flattened ranges can only be walked forwards
	{
		Vec w; evList("push", v, 1); vs::ev("same").i("ra", 0); for (auto f = Range::Flatten(Range::Split(v, vs::rnd(1, 4))); f.Valid(); f.Next()) w.push_back(f.Get());
		const Vec& c = keep(w); return El{any<true>(ToRange(c)), false, false};
	}
	case 8: { std::vector<shared_ptr<Odd> > b; for (size_t i = 0; i < v.size(); ++i) b.push_back(make_shared_ptr<Odd>(v[i])); const std::vector<shared_ptr<Odd> >& c = keep(b); evList("push", v, 1); return El{any<true>(Range::Transform(ToRange(c) | Cast<shared_ptr<Bs> >(), BsVal())), true, false}; }
	default: { Vec& c = keep(v); evList("push", v, 1); return El{vs::chance(1, 2) ? any<true>(ToRange(c)) : any<true>(ToRange(static_cast<const Vec&>(c))), ra, false}; }
	}
}
static Vec values(const AR& r) { Vec v; for (AR i(r); i.Valid() && v.size() < 500; i.Next()) v.push_back(i.Get()); return v; }
static El stage(const El& e)
{
	bool ra = e.ra, pipe = vs::chance(1, 3);
	switch (vs::rnd(0, 7))
	{
	case 0: { int m = vs::rnd(1, 3), r = vs::rnd(0, m - 1); evFlt(m, r); Prd p(m, r); return El{pipe ? any<false>(e.r | Filter(p)) : any<false>(Range::Filter(e.r, p)), false, e.lax}; }
	case 1: { Trf f(vs::rnd(1, 3)); vs::ev("trf").i("a", f.a); return El{pipe ? any<true>(e.r | Transform(f)) : any<true>(Range::Transform(e.r, f)), ra, e.lax}; }
	case 2: { vs::ev("rev"); return El{pipe ? any<true>(e.r | Reverse()) : any<true>(Range::Reverse(e.r)), ra, e.lax}; }
	case 3: { int n = vs::rnd(0, 4); evN("drop", n); return El{pipe ? any<true>(e.r | Drop(n)) : any<true>(Range::Drop(e.r, n)), ra, e.lax}; }
	case 4: { int n = vs::rnd(0, 4); evN("take", n); return El{pipe ? any<true>(e.r | Take(n)) : any<true>(Range::Take(e.r, n)), ra, e.lax}; }
	case 5: { if (!e.r.Valid()) return e; int n = vs::rnd(0, 7); evN("cyc", n); return El{any<false>(Range::Take(Range::Cycle(e.r), n)), false, e.lax}; }
	case 6: { const Vec& c = keep(values(e.r)); int n = vs::rnd(1, 3); evN("split", n); return El{any<false>(Range::Transform(Range::Split(c.begin(), c.end(), n), FragSum())), false, false}; }
	default: return e;
	}
}
static El combine(const El& a, const El& b) { if (vs::chance(1, 2)) { vs::ev("cat"); return El{any<false>(Range::Concat(a.r, b.r)), false, a.lax || b.lax}; } vs::ev("zip"); return El{any<false>(Range::Zip(Zp(), a.r, b.r)), false, a.lax || b.lax}; }
static int opt(const optional<int>& o) { return o ? *o : Exc; }
static int opt(const optional<size_t>& o) { return o ? (int)*o : Exc; }
static int askR(const std::string& q, const AR& r, int a, int b)
{
	return val([&] () -> int {
		bool w = vs::chance(1, 2); Prd p(a < 1 ? 1 : a, b); if (q == "count") return w ? Range::Count(r) : r | Count(); if (q == "has") return Range::Contains(r, a); if (q == "hasif") return w ? Range::Contains(r, p) : Range::AnyOf(r, p); if (q == "idx") return opt(Range::IndexOf(r, a)); if (q == "idxif") return opt(Range::IndexOf(r, p));
		if (q == "any") return r | Any(); if (q == "all") return Range::AllOf(r, p); if (q == "none") return Range::NoneOf(r, p); if (q == "at") return w ? Range::ElementAt(r, a) : opt(Range::ElementAtOrDefault(r, a)); if (q == "ator") return Range::ElementAtOrDefault(r, a, b);
		if (q == "first") { switch (vs::rnd(0, 3)) { case 0: return Range::First(r); case 1: return opt(Range::FirstOrDefault(r)); case 2: return r | First(); default: return opt(r | FirstOrDefault()); } } if (q == "firstor") return Range::FirstOrDefault(r, a); if (q == "sum") return Range::Sum(r); if (q == "min") return opt(Range::MinElement(r)); if (q == "max") return opt(Range::MaxElement(r));
		if (q == "fold") return opt(Range::Fold(r, Fld())); if (q == "foldi") return Range::Fold(r, a, Fld()); bad("unknown question"); return 0; });
}
struct Collect : function_info<void (int)> { Vec* v; explicit Collect(Vec* v_) : v(v_) { } void operator () (int x) const { v->push_back(x); } };
static void runRanges()
{
	std::vector<El> st; st.push_back(srcRange());
	for (int n = vs::rnd(0, 5); n > 0; --n) switch (vs::rnd(0, 5)) { case 0: st.push_back(srcRange()); break; case 1: if (st.size() > 1) { El e = combine(st[st.size() - 2], st.back()); st.pop_back(); st.back() = e; break; } default: { El e = stage(st.back()); st.back() = e; } }
	El e = st.back(); std::unique_ptr<AR> c[3]; c[1].reset(new AR(e.r)); c[2].reset(new AR(e.r)); Vec t = values(e.r); int L = t.size(), p[3] = {0, 0, 0};
	static const char* Q[] = {"count", "has", "hasif", "idx", "idxif", "any", "all", "none", "at", "ator", "first", "firstor", "sum", "min", "max", "fold", "foldi"};
	for (int n = vs::rnd(3, 16); n > 0; --n)
	{
		int i = vs::rnd(1, 2); AR& r = *c[i]; IR& x = *r.p;
		switch (vs::rnd(0, 11))
		{
		case 0: case 1: case 2: case 3: case 4:
		{
			int w = vs::rnd(0, 6); if (vs::chance(1, 2)) w = vs::chance(1, 2) ? WalkNext : WalkPrev; if ((w == WalkNext && p[i] >= L) || (w == WalkPrev && p[i] <= 0)) break;
			if (w == 6) { c[i].reset(new AR(*c[3 - i])); p[i] = p[3 - i]; } else x.walk(w); vs::ev("walk").i("i", i).i("w", w); p[i] = w == WalkNext ? p[i] + 1 : w == WalkPrev ? p[i] - 1 : w == WalkLast ? (L ? L - 1 : 0) : w == WalkEnd ? L : w == 6 ? p[i] : 0; break;
		}
		case 5: if (e.ra) { int d = vs::rnd(-3, 4), q = 1; try { x.move(d); } catch (const IndexOutOfRangeException&) { q = Exc; } vs::ev("move").i("i", i).i("d", d).i("r", q); if (q == 1) p[i] += d; } break;
		case 6: if (e.ra) { vs::ev("dim").i("i", i).i("p", x.pos()).i("z", x.size()).i("d", x.minus(*c[3 - i]->p)); break; }
		case 7: vs::ev("eq").i("r", x.equals(*c[3 - i]->p)); break;
		case 8: { int k = vs::rnd(0, 4), z = vs::rnd(0, 1) ? i : 0; Vec v; if (k == 0) { vs::ev b("back"); put(b, "s", x.back()); break; } if (k == 1) { v = x.all(); z = 0; } else { z = i; if (k == 2) Range::ForEach(r, Collect{&v}); else if (k == 3) Range::Copy(r, std::back_inserter(v)); else { v.resize(600); size_t had = Range::Copy(r, ToRange(v)).GetPosition(); v.resize(had); } } vs::ev l("ls"); l.i("i", z); put(l, "s", v); break; }
		case 9: case 10: { const char* q = Q[vs::rnd(0, 16)]; int a = vs::rnd(0, 5), b = vs::rnd(0, 1); std::string s(q); if (s == "hasif" || s == "idxif" || s == "all" || s == "none") { a = vs::rnd(1, 3); b = vs::rnd(0, a - 1); } vs::ev("ask").s("q", q).i("i", i).i("a", a).i("b", b).i("r", askR(s, r, a, b)); break; }
		default: { int w = e.lax || vs::chance(1, 3); int ok = x.valid(); vs::ev("look").i("i", i).i("ok", ok).i("v", w && !ok ? Exc : val([&] { return x.get(); })).i("w", w); }
		}
		if (p[i] < 0 || p[i] > L) break;
		if (vs::chance(1, 2)) { int w = e.lax; AR& now = *c[i]; int ok = now.Valid(); vs::ev("look").i("i", i).i("ok", ok).i("v", w && !ok ? Exc : val([&] { return now.Get(); })).i("w", w); }
	}
}
// --- enumerables
typedef shared_ptr<IEnumerable<int> > En; typedef shared_ptr<IEnumerator<int> > Er;
template <class F> struct GetEr : function_info<Er ()> { F f; explicit GetEr(const F& f_) : f(f_) { } Er operator () () const { return f(); } };
template <class F> static En fromEr(const F& f) { return MakeSimpleEnumerable(GetEr<F>(f)); }
struct AtIdx : function_info<int (size_t)> { const Vec* v; explicit AtIdx(const Vec* v_) : v(v_) { } int operator () (size_t i) const { if (i >= v->size()) throw std::out_of_range("at"); return (*v)[i]; } };
struct OkIdx : function_info<bool (size_t)> { const Vec* v; explicit OkIdx(const Vec* v_) : v(v_) { } bool operator () (size_t i) const { return i < v->size(); } };
struct DiffVal : function_info<int (const DiffEntry<int>&)> { int operator () (const DiffEntry<int>& d) const { return d.Item * 2 + (d.Op == CollectionOp::Added); } };
struct EnE { En e; bool lax; };
static Vec evalues(const En& e) { Vec v; for (Er i = e->GetEnumerator(); i->Valid() && v.size() < 500; i->Next()) v.push_back(i->Get()); return v; }
static EnE srcEn(bool sorted)
{
	Vec v = rndVec(5, sorted);
	switch (vs::rnd(0, 9))
	{
	case 0: { int x = vs::rnd(0, 6); evList("push", Vec(1, x), 0); return EnE{MakeOneItemEnumerable(x), false}; }
	case 1: evList("push", Vec(), 0); return EnE{Enumerable::Empty<int>(), false};
	case 2: { const Vec& c = keep(v); evList("push", v, 0); return EnE{fromEr([&c] { return Er(make_shared_ptr<FuncEnumerator<int> >(AtIdx(&c), OkIdx(&c))); }), false}; }
	case 3: { EnumerableBuilder<int> b; for (size_t i = 0; i < v.size(); ++i) b % v[i]; evList("push", v, 0); return EnE{b.Get(), false}; }
	case 4: { std::vector<shared_ptr<Bs> > b; for (size_t i = 0; i < v.size(); ++i) b.push_back(v[i] % 2 ? shared_ptr<Bs>(make_shared_ptr<Odd>(v[i])) : make_shared_ptr<Bs>(v[i])); const std::vector<shared_ptr<Bs> >& c = keep(b); evList("push", v, 0); evFlt(2, 1); shared_ptr<IEnumerable<shared_ptr<Bs> > > e = EnumerableFromStlContainer(c); return EnE{Enumerable::Transform(vs::chance(1, 2) ? Enumerable::OfType<shared_ptr<Odd> >(e) : e | OfType<shared_ptr<Odd> >(), OddVal()), false}; }
	case 5: { std::vector<Vec> n = rndNest(); if (sorted) { Vec f; for (size_t i = 0; i < n.size(); ++i) f.insert(f.end(), n[i].begin(), n[i].end()); if (!std::is_sorted(f.begin(), f.end())) n.clear(); } evNest(n); std::vector<En> es; for (size_t i = 0; i < n.size(); ++i) es.push_back(EnumerableFromStlContainer(keep(n[i]))); shared_ptr<IEnumerable<En> > ee = EnumerableFromStlContainer(keep(es)); return EnE{Enumerable::Flatten(ee), false}; }
	case 6: { shared_ptr<Vec> c = make_shared_ptr<Vec>(v); evList("push", v, 0); return EnE{EnumerableFromStlContainer(*c, c), false}; }
	case 7: { std::vector<shared_ptr<Bs> > b; for (size_t i = 0; i < v.size(); ++i) b.push_back(make_shared_ptr<Odd>(v[i])); shared_ptr<IEnumerable<shared_ptr<Bs> > > e = EnumerableFromStlContainer(keep(b)); evList("push", v, 0); return EnE{Enumerable::Transform(Enumerable::Cast<shared_ptr<Odd> >(e), OddVal()), false}; }
	default: { const Vec& c = keep(v); evList("push", v, 0); return EnE{EnumerableFromStlContainer(c), false}; }
	}
}
static EnE stageEn(const EnE& x)
{
	En e = x.e; bool pipe = vs::chance(1, 3), er = vs::chance(1, 3); bool lax = false;
	switch (vs::rnd(0, 8))
	{
	case 0: { int m = vs::rnd(1, 3), r = vs::rnd(0, m - 1); evFlt(m, r); Prd p(m, r); return EnE{er ? fromEr([e, p] { return Enumerable::Where(e->GetEnumerator(), p); }) : pipe ? e | Filter(p) : Enumerable::Where(e, p), lax}; }
	case 1: { Trf f(vs::rnd(1, 3)); vs::ev("trf").i("a", f.a); return EnE{er ? fromEr([e, f] { return Enumerable::Transform(e->GetEnumerator(), f); }) : pipe ? e | Transform(f) : Enumerable::Transform(e, f), lax}; }
	case 2: vs::ev("rev"); return EnE{er ? fromEr([e] { return Enumerable::Reverse(e->GetEnumerator()); }) : pipe ? e | Reverse() : Enumerable::Reverse(e), lax};
	case 3: { int n = vs::rnd(0, 4); evN("drop", n); return EnE{er ? fromEr([e, n] { return Enumerable::Skip(e->GetEnumerator(), n); }) : pipe ? e | Drop(n) : Enumerable::Skip(e, n), lax}; }
	case 4: { int n = vs::rnd(0, 4); evN("take", n); return EnE{er ? fromEr([e, n] { return Enumerable::Take(e->GetEnumerator(), n); }) : pipe ? e | Take(n) : Enumerable::Take(e, n), lax}; }
	case 5: { int v = vs::rnd(0, 6); vs::ev("orelse").i("v", v); return EnE{er ? fromEr([e, v] { return Enumerable::DefaultIfEmpty(e->GetEnumerator(), v); }) : Enumerable::DefaultIfEmpty(e, v), lax}; }
	case 6: { vs::ev("orelse").i("v", 0); return EnE{er ? fromEr([e] { return Enumerable::DefaultIfEmpty(e->GetEnumerator()); }) : Enumerable::DefaultIfEmpty(e), lax}; }
	case 7: vs::ev("same").i("ra", 0); return EnE{pipe ? e | Clone() : er ? Enumerable::Clone(e->GetEnumerator()) : Enumerable::Clone(e), lax};
	default: return x;
	}
}
static EnE combineEn(const EnE& x, const EnE& y)
{
	En a = x.e, b = y.e; bool er = vs::chance(1, 2); Vec va = evalues(a), vb = evalues(b);
	if (vs::chance(1, 2) && std::is_sorted(va.begin(), va.end()) && std::is_sorted(vb.begin(), vb.end())) { vs::ev("diff"); return EnE{er ? fromEr([a, b] { return Enumerable::Transform(Enumerable::Diff(a->GetEnumerator(), b->GetEnumerator(), comparers::Cmp()), DiffVal()); }) : Enumerable::Transform(Enumerable::Diff(a, b, comparers::Cmp()), DiffVal()), false}; }
	vs::ev("cat"); switch (vs::rnd(0, 3)) { case 0: return EnE{Enumerable::Concat(a, b), false}; case 1: return EnE{fromEr([a, b] { return Enumerable::Concat(a->GetEnumerator(), b->GetEnumerator()); }), false}; case 2: { EnumerableJoiner<int> j; j % a % b; return EnE{j.Get(), false}; } default: return EnE{fromEr([a, b] { EnumeratorJoiner<int> j; j % a->GetEnumerator() % b->GetEnumerator(); return j.Get(); }), false}; }
}
template <class E> static int askE(const std::string& q, const E& e, int a, int b)
{
	return val([&] () -> int {
		bool w = vs::chance(1, 2); Prd p(a < 1 ? 1 : a, b); if (q == "count") return Enumerable::Count(e); if (q == "countif") return Enumerable::Count(e, p); if (q == "has") return Enumerable::Contains(e, a); if (q == "hasif") return w ? Enumerable::Contains(e, p) : Enumerable::Any(e, p); if (q == "idx") return opt(Enumerable::IndexOf(e, a)); if (q == "idxif") return opt(Enumerable::IndexOf(e, p));
		if (q == "any") return Enumerable::Any(e); if (q == "all") return Enumerable::All(e, p); if (q == "at") return w ? Enumerable::ElementAt(e, a) : opt(Enumerable::ElementAtOrDefault(e, a)); if (q == "ator") return Enumerable::ElementAtOrDefault(e, a, b);
		if (q == "first") return w ? Enumerable::First(e) : opt(Enumerable::FirstOrDefault(e)); if (q == "firstor") return Enumerable::FirstOrDefault(e, a); if (q == "firstif") switch (vs::rnd(0, 2)) { case 0: return Enumerable::First(e, p); case 1: return opt(Enumerable::FirstOrDefault(e, p)); default: return Enumerable::FirstOrDefault(e, p, Exc); }
		if (q == "last") return w ? Enumerable::Last(e) : opt(Enumerable::LastOrDefault(e)); if (q == "lastor") return Enumerable::LastOrDefault(e, a); if (q == "lastif") switch (vs::rnd(0, 2)) { case 0: return Enumerable::Last(e, p); case 1: return opt(Enumerable::LastOrDefault(e, p)); default: return Enumerable::LastOrDefault(e, p, Exc); }
		if (q == "single") return Enumerable::Single(e); if (q == "fold") return opt(Enumerable::Aggregate(e, Fld())); if (q == "foldi") return Enumerable::Aggregate(e, a, Fld()); bad("unknown question"); return 0; });
}
static void runEnumerables()
{
	std::vector<EnE> st; bool sorted = vs::chance(1, 3); st.push_back(srcEn(sorted));
	for (int n = vs::rnd(0, 5); n > 0; --n) switch (vs::rnd(0, 5)) { case 0: st.push_back(srcEn(sorted)); break; case 1: if (st.size() > 1) { EnE e = combineEn(st[st.size() - 2], st.back()); st.pop_back(); st.back() = e; break; } default: { EnE e = stageEn(st.back()); st.back() = e; } }
	EnE e = st.back(); Er c[3]; c[1] = e.e->GetEnumerator(); c[2] = e.e->GetEnumerator(); Vec t = evalues(e.e); int L = t.size(), p[3] = {0, 0, 0};
	static const char* Q[] = {"count", "has", "hasif", "idx", "idxif", "any", "all", "at", "ator", "first", "firstor", "fold", "foldi", "countif", "firstif", "last", "lastor", "lastif", "single"};
	for (int n = vs::rnd(3, 16); n > 0; --n)
	{
		int i = vs::rnd(1, 2);
		switch (vs::rnd(0, 8))
		{
		case 0: case 1: case 2: if (p[i] < L) { c[i]->Next(); ++p[i]; vs::ev("walk").i("i", i).i("w", WalkNext); break; }
		case 3: c[i] = e.e->GetEnumerator(); p[i] = 0; vs::ev("walk").i("i", i).i("w", WalkBegin); break;
		case 4: case 5:
		{
			const char* q = Q[vs::rnd(0, 18)]; int a = vs::rnd(0, 5), b = vs::rnd(0, 1), z = vs::chance(1, 3) ? i : 0; std::string s(q); if (s.find("if") != std::string::npos || s == "all") { a = vs::rnd(1, 3); b = vs::rnd(0, a - 1); }
			vs::ev("ask").s("q", q).i("i", z).i("a", a).i("b", b).i("r", z ? askE(s, c[i], a, b) : vs::chance(1, 2) ? askE(s, e.e, a, b) : askE(s, e.e->GetEnumerator(), a, b)); if (z) { c[i] = e.e->GetEnumerator(); p[i] = 0; vs::ev("walk").i("i", i).i("w", WalkBegin); } break;
		}
		case 6: { Vec v; int z = 0; switch (vs::rnd(0, 3)) { case 0: Enumerable::ForEach(e.e, Collect{&v}); break; case 1: for (int x : IterableEnumerable(e.e)) v.push_back(x); break; case 2: std::copy(Wrap(e.e), WrapEnd(e.e), std::back_inserter(v)); break; default: z = i; for (int x : IterableEnumerable(c[i])) v.push_back(x); } vs::ev l("ls"); l.i("i", z); put(l, "s", v); }
			{ c[i] = e.e->GetEnumerator(); p[i] = 0; vs::ev("walk").i("i", i).i("w", WalkBegin); } break;
		case 7: { Vec v = t; if (vs::chance(1, 2)) { if (vs::chance(1, 2)) v.push_back(1); else if (!v.empty()) v[vs::rnd(0, (int)v.size() - 1)]++; } En o = EnumerableFromStlContainer(v); int r = vs::chance(1, 2) ? Enumerable::SequenceEqual(e.e, o) : Enumerable::SequenceEqual(o->GetEnumerator(), e.e->GetEnumerator()); vs::ev q("seq"); put(q, "s", v); q.i("r", r); break; }
		default: ;
		}
		if (vs::chance(2, 3)) { int ok = c[i]->Valid(), w = vs::chance(1, 3); vs::ev("look").i("i", i).i("ok", ok).i("v", w && !ok ? Exc : val([&] { return c[i]->Get(); })).i("w", w); }
	}
}
static void run()
{
	vs::set_time_jitter(false); vs::ev("cfg").i("z", 0); g_keep.clear();
	if (vs::chance(2, 3)) runRanges(); else runEnumerables();
	g_keep.clear();
}
int main(int argc, char** argv) { return vs::main(argc, argv, run); }
