// Containers: random operation sequences on two instances, with the full contents after each operation.
#include "elem.h"
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <map>
#include <memory>
using namespace stingray; using elem::Val;
typedef std::vector<int> VI;
struct Cmp { int d; Cmp(int d_ = 1) : d(d_) { } int cl(const Val& k) const { return d > 0 ? k.get() / d : -(k.get() / -d); } bool operator () (const Val& a, const Val& b) const { return cl(a) < cl(b); } };
static int nk, nv;
struct Ev { std::string op; int c, k, v, h, h2, r, p, x; VI ls; Ev() : c(1), k(0), v(0), h(0), h2(0), r(0), p(-1), x(0) { } };
static void emit(const Ev& e, const VI& now) { vs::ev("op").i("c", e.c).s("op", e.op).i("k", e.k).i("v", e.v).i("h", e.h).i("h2", e.h2).li("ls", e.ls).i("r", e.r).i("p", e.p).i("x", e.x).li("now", now); }
static int code(const Val& x) { return 10 * x.get(); }
template <class A> int code(const std::pair<A, Val>& p) { return 10 * p.first.get() + p.second.get(); }
template <class C> VI fwd(const C& c) { VI r; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) r.push_back(code(*i)); return r; }
template <class C> VI rev(const C& c) { VI r; for (typename C::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) r.push_back(code(*i)); return r; }
template <class C> VI frev(C& c) { VI r; for (typename C::reverse_iterator i = c.rbegin(); i != c.rend(); ++i) r.push_back(code(*i)); return r; }
template <class C> VI bwd(C& c) { VI r; typename C::iterator i = c.end(); while (i != c.begin()) { i--; r.push_back(code(*i)); } return r; }
template <class C, class I> int at(C& c, I i) { return std::distance(typename C::const_iterator(c.begin()), typename C::const_iterator(i)); }
template <class C> typename C::iterator nth(C& c, int n) { return std::next(c.begin(), n); }
template <class V> struct Mk; template <> struct Mk<Val> { static Val mk(int k, int) { return Val(k); } }; template <class A> struct Mk<std::pair<A, Val> > { static std::pair<A, Val> mk(int k, int v) { return std::pair<A, Val>(Val(k), Val(v)); } };
template <class C> std::vector<typename C::value_type> vals(VI& ls, bool flat) { std::vector<typename C::value_type> r; r.reserve(8); for (int i = vs::rnd(0, 5); i > 0; --i) { int k = vs::rnd(0, nk - 1), v = flat ? 0 : vs::rnd(0, nv - 1); ls.push_back(10 * k + v); r.push_back(Mk<typename C::value_type>::mk(k, v)); } return r; }
template <class C> std::initializer_list<typename C::value_type> il(const std::vector<typename C::value_type>& v) { struct { const typename C::value_type* b; size_t n; } s = { v.data(), v.size() }; static_assert(sizeof(s) == sizeof(std::initializer_list<typename C::value_type>), "layout"); return *reinterpret_cast<std::initializer_list<typename C::value_type>*>(&s); }
// ---- whole-container operations shared by all
template <class C> struct Whole
{
	std::unique_ptr<C> p[3];
	void copymove(bool assoc, bool flatv)
	{
		int i = vs::rnd(1, 2), j = vs::rnd(1, 2), w = vs::rnd(0, 6);
		if (w < 2) { *p[i] = *p[j]; vs::ev("copy").i("c", i).i("j", j).i("x", 0).li("now", fwd(*p[i])); }
		else if (w == 2) { std::unique_ptr<C> n(clone(*p[j])); p[i] = std::move(n); vs::ev("copy").i("c", i).i("j", j).i("x", 0).li("now", fwd(*p[i])); }
		else if (w < 5)
		{
			if (i == j) j = 3 - i;
			if (w == 3) *p[i] = std::move(*p[j]); else { std::unique_ptr<C> n(steal(*p[j])); p[i] = std::move(n); }
			p[j]->clear(); vs::ev("move").i("c", i).i("j", j).li("now", fwd(*p[i]));
		}
		else if (w == 5) { swp(); vs::ev("swap").li("now", fwd(*p[1])); }
		else fresh(i);
	}
	virtual C* clone(const C& o) = 0; virtual C* steal(C& o) = 0; virtual void swp() = 0; virtual void fresh(int i) = 0; virtual void op(int i) = 0;
	virtual ~Whole() { }
	void dump() { int i = vs::rnd(1, 2), w = vs::rnd(0, 3); VI l = w == 0 ? fwd(*p[i]) : w == 1 ? rev(*p[i]) : w == 2 ? frev(*p[i]) : bwd(*p[i]); vs::ev("dump").i("c", i).i("rev", w > 0).li("ls", l); }
	virtual void compare() = 0;
	void run(const char* kind, bool eq)
	{
		vs::ev("cfg").s("k", kind); nk = vs::rnd(1, 4); nv = vs::rnd(1, 3);
		fresh(1); fresh(2);
		for (int n = vs::rnd(3, 25); n > 0; --n)
		{
			int w = vs::rnd(0, 19);
			if (w < 14) op(vs::chance(1, 4) ? 2 : 1); else if (w < 17) copymove(true, false); else if (w < 18 && eq) compare(); else dump();
		}
		for (int i = 1; i < 3; ++i) { VI l = fwd(*p[i]); vs::ev("dump").i("c", i).i("rev", 0).li("ls", l); }
		p[1].reset(); p[2].reset();
	}
};
// ---- maps and sets
template <class C, bool Map, bool Flat> struct Assoc : Whole<C>
{
	using Whole<C>::p; typedef typename C::value_type VT;
	static VT mk(int k, int v) { return Mk<VT>::mk(k, v); }
	C* clone(const C& o) { return vs::chance(1, 2) ? new C(o) : new C(o, o.get_allocator()); }
	C* steal(C& o) { return vs::chance(1, 2) ? new C(std::move(o)) : new C(std::move(o), o.get_allocator()); }
	void swp() { p[1]->swap(*p[2]); }
	void compare() { if (vs::chance(1, 2)) { bool r = *p[1] == *p[2]; if ((*p[1] != *p[2]) == r) r = !r; vs::ev("eq").i("r", r); } else { bool r = *p[1] < *p[2]; if (*p[2] > *p[1] && !r) r = true; vs::ev("lt").i("r", r); } }
	void fresh(int i)
	{
		int d = vs::chance(1, 2) ? 1 : vs::chance(1, 2) ? 2 : vs::chance(1, 2) ? -1 : -2; VI ls; std::vector<VT> v = vals<C>(ls, !Map); C* n; int w = vs::rnd(0, 3);
		if (w == 0) { ls.clear(); n = new C(Cmp(d)); } else if (w == 1) n = new C(v.begin(), v.end(), Cmp(d)); else if (w == 2) n = new C(il<C>(v), Cmp(d)); else { d = 1; n = vs::chance(1, 2) ? new C(v.begin(), v.end()) : new C(il<C>(v)); }
		p[i].reset(n); vs::ev("new").i("c", i).i("d", d).li("ls", ls).li("now", fwd(*p[i]));
	}
	template <class M> static int idx(M& m, int k, std::true_type) { if (vs::chance(1, 2)) { Val kk(k); return m[kk].get(); } return m[Val(k)].get(); }
	template <class M> static int idx(M&, int, std::false_type) { return 0; }
	template <class M> static void sidx(M& m, int k, int v, std::true_type) { m[Val(k)] = Val(v); }
	template <class M> static void sidx(M&, int, int, std::false_type) { }
	template <class M> static int ata(M& m, int k, std::true_type) { try { if (vs::chance(1, 2)) return const_cast<const M&>(m).at(Val(k)).get(); return m.at(Val(k)).get(); } catch (const elem::Boom&) { throw; } catch (const std::exception&) { return -1; } }
	template <class M> static int ata(M&, int, std::false_type) { return 0; }
	template <class M> static void bounds(M& c, Ev& e, std::true_type)
	{
		const M& cc = c; bool con = vs::chance(1, 2); Val k(e.k);
		if (e.op == "lb") e.p = con ? at(c, cc.lower_bound(k)) : at(c, c.lower_bound(k));
		else if (e.op == "ub") e.p = con ? at(c, cc.upper_bound(k)) : at(c, c.upper_bound(k));
		else if (con) { auto r = cc.equal_range(k); e.p = at(c, r.first); e.r = std::distance(r.first, r.second); } else { auto r = c.equal_range(k); e.p = at(c, r.first); e.r = std::distance(r.first, r.second); }
	}
	template <class M> static void bounds(M&, Ev&, std::false_type) { }
	template <class M> static std::pair<typename M::iterator, bool> empl(M& m, int k, int v, std::true_type) { return m.emplace(Val(k), Val(v)); }
	template <class M> static std::pair<typename M::iterator, bool> empl(M& m, int k, int, std::false_type) { return m.emplace(Val(k)); }
	template <class M> static typename M::iterator emplh(M& m, typename M::const_iterator h, int k, int v, std::true_type) { return m.emplace_hint(h, Val(k), Val(v)); }
	template <class M> static typename M::iterator emplh(M& m, typename M::const_iterator h, int k, int, std::false_type) { return m.emplace_hint(h, Val(k)); }
	void op(int i)
	{
		static const char* O[] = { "ins", "ins", "empl", "insh", "insh", "emplh", "inslist", "assign", "erasek", "erasek", "erasep", "eraser", "clear", "find", "count", "size", "empty", "idx", "setidx", "at", "lb", "ub", "er", "ins" };
		typedef std::integral_constant<bool, Map> M; typedef std::integral_constant<bool, Flat> F;
		Ev e; C& c = *p[i]; int n = c.size(), w; do { w = vs::rnd(0, 23); e.op = O[w]; } while ((!Map && w >= 17 && w <= 19) || (!Flat && w >= 20 && w <= 22) || (e.op == "erasep" && n == 0) || (e.op == "clear" && vs::chance(1, 2)));
		e.c = i; e.k = vs::rnd(0, nk - 1); e.v = Map ? vs::rnd(0, nv - 1) : 0; e.h = vs::rnd(0, n); e.h2 = vs::rnd(e.h, n); if (e.op == "erasep") e.h = vs::rnd(0, n - 1);
		bool own = vs::chance(1, 2); // by rvalue or by const reference
		std::vector<VT> v; if (e.op == "inslist" || e.op == "assign") v = vals<C>(e.ls, !Map);
		if (!Flat && (w < 6 || w >= 17) && vs::chance(1, 4)) elem::fuse() = vs::rnd(0, 3);
		try
		{
			if (e.op == "ins") { std::pair<typename C::iterator, bool> r; if (own) r = c.insert(mk(e.k, e.v)); else { const VT x = mk(e.k, e.v); r = c.insert(x); } e.r = r.second; e.p = at(c, r.first); }
			else if (e.op == "empl") { std::pair<typename C::iterator, bool> r = empl(c, e.k, e.v, M()); e.r = r.second; e.p = at(c, r.first); }
			else if (e.op == "insh") { typename C::const_iterator h = nth(c, e.h); if (own) e.p = at(c, c.insert(h, mk(e.k, e.v))); else { const VT x = mk(e.k, e.v); e.p = at(c, c.insert(h, x)); } }
			else if (e.op == "emplh") { typename C::const_iterator h = nth(c, e.h); e.p = at(c, emplh(c, h, e.k, e.v, M())); }
			else if (e.op == "inslist") { if (own) c.insert(v.begin(), v.end()); else c.insert(il<C>(v)); }
			else if (e.op == "assign") c = il<C>(v);
			else if (e.op == "erasek")
			{
				typename C::const_iterator f = c.find(Val(e.k));
				if (own && f != c.end()) e.r = c.erase(key(*f)); else e.r = c.erase(Val(e.k)); // also by a reference to the key inside
			}
			else if (e.op == "erasep") { typename C::const_iterator h = nth(c, e.h); e.p = own ? at(c, c.erase(h)) : at(c, c.erase(nth(c, e.h))); }
			else if (e.op == "eraser") { typename C::const_iterator a = nth(c, e.h), b = nth(c, e.h2); e.p = at(c, c.erase(a, b)); }
			else if (e.op == "clear") c.clear();
			else if (e.op == "find") e.p = own ? at(c, const_cast<const C&>(c).find(Val(e.k))) : at(c, c.find(Val(e.k)));
			else if (e.op == "count") e.r = c.count(Val(e.k));
			else if (e.op == "size") e.r = c.size();
			else if (e.op == "empty") e.r = c.empty();
			else if (e.op == "idx") e.r = idx(c, e.k, M());
			else if (e.op == "setidx") sidx(c, e.k, e.v, M());
			else if (e.op == "at") e.r = ata(c, e.k, M());
			else bounds(c, e, F());
		}
		catch (const elem::Boom&) { e.x = 1; e.r = 0; e.p = -1; }
		elem::fuse() = -1;
		emit(e, fwd(c));
	}
	static const Val& key(const Val& v) { return v; }
	template <class A> static const Val& key(const std::pair<A, Val>& v) { return v.first; }
};
// ---- fixed-capacity vector
template <int N> struct Vec : Whole<inplace_vector<Val, N> >
{
	typedef inplace_vector<Val, N> C; using Whole<C>::p;
	C* clone(const C& o) { return new C(o); }
	C* steal(C& o) { return new C(std::move(o)); }
	void swp() { std::swap(*p[1], *p[2]); }
	void fresh(int i) { p[i].reset(new C()); VI ls; vs::ev("new").i("c", i).i("d", 1).li("ls", ls).li("now", fwd(*p[i])); }
	void compare() { }
	void op(int i)
	{
		static const char* O[] = { "push", "push", "push", "push", "push", "vat", "vat", "vset", "front", "back", "size", "empty", "clear", "assign", "reserve", "copyx" };
		Ev e; C& c = *p[i]; int n = c.size(), w; do { w = vs::rnd(0, 15); e.op = O[w]; } while (((e.op == "front" || e.op == "back") && n == 0) || ((e.op == "clear" || e.op == "assign") && vs::chance(1, 2)) || (e.op == "push" && n > 7));
		e.c = i; e.k = vs::rnd(0, nk - 1); e.h = vs::rnd(0, n + 1); const C& cc = c; bool con = vs::chance(1, 2);
		if (e.op == "reserve") { c.reserve(vs::rnd(0, 6)); e.op = "empty"; e.r = c.capacity() < c.size() ? -9 : c.empty(); emit(e, fwd(c)); return; }
		if (e.op == "copyx") // a copy that throws
		{
			C& o = *p[3 - i]; elem::fuse() = vs::rnd(0, 3); bool x = false;
			try { if (vs::chance(1, 2)) c = o; else { std::unique_ptr<C> m(new C(o)); p[i] = std::move(m); } } catch (const elem::Boom&) { x = true; }
			elem::fuse() = -1; vs::ev("copy").i("c", i).i("j", 3 - i).i("x", x).li("now", fwd(*p[i])); return;
		}
		if (e.op == "push" && vs::chance(1, 4)) elem::fuse() = 0;
		try
		{
			if (e.op == "push") { int w2 = vs::rnd(0, 2); if (w2 == 0) { Val x(e.k); c.push_back(x); } else if (w2 == 1) c.push_back(Val(e.k)); else c.emplace_back(e.k); }
			else if (e.op == "vat") { try { int w2 = vs::rnd(0, 3); e.r = w2 == 0 ? c.at(e.h).get() : w2 == 1 ? cc.at(e.h).get() : w2 == 2 ? c[e.h].get() : *(c.begin() + e.h) == 0 ? 0 : cc[e.h].get(); } catch (const elem::Boom&) { throw; } catch (const std::exception&) { e.r = -1; } }
			else if (e.op == "vset") { try { if (con) c.at(e.h) = Val(e.k); else *(c.begin() + e.h) = Val(e.k); } catch (const elem::Boom&) { throw; } catch (const std::exception&) { e.r = -1; } }
			else if (e.op == "front") e.r = con ? cc.front().get() : c.front().get();
			else if (e.op == "back") e.r = con ? cc.back().get() : c.back().get();
			else if (e.op == "size") e.r = con ? int(c.size()) : int(c.end() - c.begin());
			else if (e.op == "empty") e.r = c.empty();
			else if (e.op == "clear") c.clear();
			else { std::vector<Val> v = vals<C>(e.ls, true); c.assign(v.begin(), v.end()); }
		}
		catch (const elem::Boom&) { e.x = 1; e.r = 0; }
		elem::fuse() = -1;
		emit(e, fwd(c));
	}
};
// ---- bidirectional map
template <class B> static VI left(const B& b) { VI r; for (typename B::left_const_iterator i = b.left_begin(); i != b.left_end(); ++i) r.push_back(code(*i)); return r; }
template <class B> static VI right(const B& b) { VI r; for (typename B::right_const_iterator i = b.right_begin(); i != b.right_end(); ++i) r.push_back(10 * i->second.get() + i->first.get()); std::sort(r.begin(), r.end()); return r; }
static void bimapRun()
{
	typedef bimap<std::map<Val, Val>, std::map<Val, Val> > B; std::unique_ptr<B> p[3]; vs::ev("cfg").s("k", "bimap"); nk = vs::rnd(2, 5); nv = vs::rnd(2, 5);
	for (int i = 1; i < 3; ++i) p[i].reset(new B());
	for (int n = vs::rnd(3, 25); n > 0; --n)
	{
		static const char* O[] = { "ins", "ins", "ins", "ins", "erasek", "rerase", "find", "rfind", "size", "empty", "clear", "copy" };
		Ev e; e.c = vs::chance(1, 4) ? 2 : 1; B& b = *p[e.c]; const B& cb = b; e.op = O[vs::rnd(0, 11)]; e.k = vs::rnd(0, nk - 1); e.v = vs::rnd(0, nv - 1); bool alt = vs::chance(1, 2);
		Val k(e.k), v(e.v);
		if (e.op == "ins") { if (b.left_find(k) != b.left_end() || b.right_find(v) != b.right_end()) continue; if (alt) b.left_insert(k, v); else b.right_insert(v, k); e.r = 1; e.p = std::distance(b.left_begin(), b.left_find(k)); }
		else if (e.op == "erasek") { e.r = b.left_find(k) != b.left_end(); if (alt) b.left_erase(k); else b.left_erase(b.left_find(k)); }
		else if (e.op == "rerase") { if (alt) b.right_erase(v); else b.right_erase(b.right_find(v)); }
		else if (e.op == "find") e.p = std::distance(cb.left_begin(), cb.left_find(k));
		else if (e.op == "rfind") e.r = cb.right_find(v) == cb.right_end() ? -1 : cb.right_find(v)->second.get();
		else if (e.op == "size") e.r = b.size(); else if (e.op == "empty") e.r = b.empty();
		else if (e.op == "clear") { if (vs::chance(1, 2)) continue; b.clear(); }
		else { int j = vs::rnd(1, 2); *p[e.c] = *p[j]; vs::ev("copy").i("c", e.c).i("j", j).i("x", 0).li("now", left(b)); continue; }
		emit(e, left(b)); vs::ev("dump").i("c", e.c).i("rev", 0).li("ls", right(b));
	}
}
// ---- intrusive lists
struct Node : public IntrusiveListNode<Node> { int k; explicit Node(int k_) : k(k_) { } };
static void ilistRun()
{
	IntrusiveList<Node> l[3]; std::vector<std::unique_ptr<Node> > n; std::vector<int> on(5, 0); vs::ev("cfg").s("k", "ilist"); for (int i = 0; i < 5; ++i) n.emplace_back(new Node(i));
	for (int s = vs::rnd(3, 25); s > 0; --s)
	{
		int i = vs::rnd(1, 2), k = vs::rnd(0, 4), w = vs::rnd(0, 9);
		if (w < 5) { if (on[k]) continue; l[i].push_back(*n[k]); on[k] = i; vs::ev("link").i("c", i).i("k", k); }
		else if (w < 7) { l[on[k] ? on[k] : i].erase(*n[k]); on[k] = 0; vs::ev("unlink").i("k", k); }
		else if (w < 8) { Ev e; e.c = i; e.op = w == 7 ? "size" : "empty"; e.r = w == 7 ? int(l[i].size()) : l[i].empty(); VI f; for (IntrusiveList<Node>::iterator it = l[i].begin(); it != l[i].end(); it++) f.push_back(10 * it->k); emit(e, f); }
		else { VI f; const IntrusiveList<Node>& c = l[i]; if (w == 8) for (IntrusiveList<Node>::const_iterator it = c.begin(); it != c.end(); ++it) f.push_back(10 * it->k); else for (IntrusiveList<Node>::const_iterator it = c.end(); it != c.begin(); ) { --it; f.push_back(10 * it->k); } vs::ev("dump").i("c", i).i("rev", w == 9).li("ls", f); }
	}
	for (int k = 0; k < 5; ++k) if (on[k]) l[on[k]].erase(*n[k]);
}
typedef flat_map<Val, Val, Cmp> FM; typedef flat_set<Val, Cmp> FS; typedef ordered_map<Val, Val, Cmp> OM; typedef ordered_set<Val, Cmp> OS;
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		int base = elem::live();
		switch (vs::rnd(0, 8))
		{
		case 0: Assoc<FM, true, true>().run("fmap", true); break;
		case 1: Assoc<FS, false, true>().run("fset", true); break;
		case 2: Assoc<OM, true, false>().run("omap", true); break;
		case 3: case 4: Assoc<OS, false, false>().run("oset", true); break;
		case 5: Vec<2>().run("vec", false); break;
		case 6: if (vs::chance(1, 2)) Vec<1>().run("vec", false); else Vec<4>().run("vec", false); break;
		case 7: bimapRun(); break;
		default: ilistRun(); break;
		}
		vs::ev("end").i("n", elem::live() - base);
	});
}
