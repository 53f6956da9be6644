// optional, variant, any, function: random programs over three holders, with copies made to throw.
#include "drv.h"
#include "elem.h"
#include <stingraykit/any.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/string/ToString.h>
#include <memory>
namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr&) { } } // generated by the build of an application
using namespace stingray; using namespace drv; using elem::Val;
static std::string str(int v) { return std::to_string(v); }
static int unstr(const std::string& s) { return s.empty() ? -55 : atoi(s.c_str()); }
static const int Exc = -1;
struct Fam
{
	virtual ~Fam() { }
	virtual const char* name() = 0;
	virtual int initTy() { return 0; }
	virtual bool hasTy(int ty) = 0; virtual bool throws() { return true; } virtual bool canReset() { return true; } virtual bool canSwap() { return false; } virtual bool canCmp() { return true; } virtual bool opt() { return false; } virtual bool fun() { return false; } virtual bool self() { return true; }
	virtual void set(int i, int ty, int v, int how) = 0; virtual void copy(int i, int j, bool construct) = 0; virtual void move(int i, int j, bool construct) = 0; virtual void swap(int, int) { } virtual void reset(int i) = 0;
	virtual int get(int i, int ty, int how) = 0; virtual int which(int i) = 0; virtual int empty(int i) = 0;
	virtual void cmp(int, int, int&, int&) { } virtual int visit(int i, int& v) = 0;
	virtual int apply(int, int) { return Exc; } virtual int valueOr(int, int) { return 0; }
};
// holders on the heap: poisoned when freed
template <class H> struct Slots
{
	std::unique_ptr<H> s[4];
	template <class... A> void make(int i, A&&... a) { s[i].reset(new H(std::forward<A>(a)...)); }
};
template <class H> bool rel(const H& a, const H& b, int& eq, int& lt)
{ // all operators have to agree
	eq = a == b; lt = a < b;
	return (a != b) == !eq && (b == a) == (bool)eq && (a <= b) == (lt || eq) && (a >= b) == !lt && (a > b) == (!lt && !eq) && (b > a) == (bool)lt;
}
struct OptF : Fam
{
	typedef optional<Val> H; Slots<H> x;
	OptF() { for (int i = 1; i < 4; ++i) x.make(i); }
	const char* name() { return "opt"; } bool hasTy(int ty) { return ty == 3; } bool canSwap() { return true; } bool opt() { return true; }
	void set(int i, int, int v, int how)
	{
		Val a(v); H& h = *x.s[i];
		switch (how) { case 0: h = a; break; case 1: h = std::move(a); break; case 2: h.emplace(a); break; case 3: h.assign(a); break; case 4: x.make(i, a); break; case 5: h = H(a); break; case 6: h.emplace(v); break; default: h = v; }
	}
	void copy(int i, int j, bool c) { if (c) x.make(i, static_cast<const H&>(*x.s[j])); else *x.s[i] = static_cast<const H&>(*x.s[j]); }
	void move(int i, int j, bool c) { if (c) x.make(i, std::move(*x.s[j])); else *x.s[i] = std::move(*x.s[j]); }
	void swap(int i, int j) { if (vs::chance(1, 2)) x.s[i]->swap(*x.s[j]); else { using std::swap; swap(*x.s[i], *x.s[j]); } }
	void reset(int i) { switch (vs::rnd(0, 2)) { case 0: x.s[i]->reset(); break; case 1: *x.s[i] = null; break; default: *x.s[i] = H(); } }
	int get(int i, int ty, int how)
	{
		if (ty != 3) return Exc; const H& h = *x.s[i];
		try { switch (how) { case 0: return h.get().get(); case 1: return h->get(); case 2: return (*h).get(); case 3: return x.s[i]->get_ptr()->get(); default: return x.s[i]->get().get(); } } catch (const NotInitializedException&) { return Exc; }
	}
	int which(int i) { return x.s[i]->is_initialized() ? 3 : 0; } int empty(int i) { return !*x.s[i] && *x.s[i] == null; }
	void cmp(int i, int j, int& eq, int& lt)
	{
		if (!rel(*x.s[i], *x.s[j], eq, lt)) eq = 7; H& b = *x.s[j]; H& a = *x.s[i];
		if (b && vs::chance(1, 2)) { eq = (a == b.get()) ? 1 : 0; lt = a < b.get(); if ((a != b.get()) == (bool)eq || (b.get() > a) != (bool)lt || (a >= b.get()) == (bool)lt) eq = 8; }
		if (!b && vs::chance(1, 2)) { eq = a == null; lt = a < null; if ((null < a) != !eq) eq = 9; }
	}
	int visit(int i, int& v) { if (x.s[i]->is_initialized()) v = (**x.s[i]).get(); return which(i); }
	struct Tr : public function_info<int (const Val&)> { int operator () (const Val& v) const { return v.get() + 1; } };
	struct At : public function_info<optional<int> (const Val&)> { optional<int> operator () (const Val& v) const { return v.get() + 1; } };
	int apply(int i, int how) { const H& h = *x.s[i]; optional<int> r; if (how == 0) r = h.transform(Tr()); else if (how == 1) r = h.and_then(At()); else r = x.s[i]->transform(Tr()); return r ? *r : Exc; }
	struct Oe : public function_info<optional<Val> ()> { int d; Oe(int d_) : d(d_) { } optional<Val> operator () () const { return Val(d); } };
	int valueOr(int i, int d) { const H& h = *x.s[i]; if (vs::chance(1, 2)) return h.get_value_or(Val(d)).get(); return h.or_else(Oe(d))->get(); }
};
template <class V, int Base> struct VarF : Fam
{
	typedef V H; Slots<H> x;
	VarF() { for (int i = 1; i < 4; ++i) x.make(i); }
	const char* name() { return Base ? "nev" : "var"; } bool hasTy(int ty) { return ty >= 1; } bool throws() { return Base == 0; } bool canReset() { return Base == 0; } int initTy() { return Base; } bool canSwap() { return true; }
	template <class T> void put(int i, const T& a, int how) { H& h = *x.s[i]; switch (how) { case 0: case 3: h = a; break; case 1: { T b(a); h = std::move(b); break; } case 2: h.template emplace<T>(a); break; case 4: x.make(i, a); break; case 5: h = H(a); break; default: h.assign(a); } }
	void set(int i, int ty, int v, int how) { switch (ty) { case 1: put(i, v, how); break; case 2: put(i, str(v), how); break; default: { Val a(v); if (how == 6) x.s[i]->template emplace<Val>(v); else put(i, a, how); } } }
	void copy(int i, int j, bool c) { if (c) x.make(i, static_cast<const H&>(*x.s[j])); else *x.s[i] = static_cast<const H&>(*x.s[j]); }
	void move(int i, int j, bool c) { if (c) x.make(i, std::move(*x.s[j])); else *x.s[i] = std::move(*x.s[j]); }
	void swap(int i, int j) { std::swap(*x.s[i], *x.s[j]); }
	template <class D> static void rst(D& h, TrueType) { h = EmptyType(); } template <class D> static void rst(D&, FalseType) { }
	void reset(int i) { rst(*x.s[i], typename If<Base == 0, TrueType, FalseType>::ValueT()); }
	struct Num : public static_visitor<int> { int operator () (const EmptyType&) const { return 0; } int operator () (int v) const { return v; } int operator () (const std::string& s) const { return unstr(s); } int operator () (const Val& v) const { return v.get(); } };
	template <class T> int as(int i, int how)
	{
		const H& h = *x.s[i]; T* p = 0;
		switch (how)
		{
		case 0: { const T* q = h.template get_ptr<T>(); return q ? Num()(*q) : Exc; }
		case 1: p = x.s[i]->template get_ptr<T>(); return p ? Num()(*p) : Exc;
		case 2: return h.template contains<T>() ? Num()(h.template get<T>()) : Exc;
		case 3: { p = variant_get<T>(&*x.s[i]); return p ? Num()(*p) : Exc; }
		default: try { return Num()(h.template get<T>()); } catch (const bad_variant_get&) { return Exc; }
		}
	}
	int get(int i, int ty, int how) { return ty == 1 ? as<int>(i, how) : ty == 2 ? as<std::string>(i, how) : ty == 3 ? as<Val>(i, how) : Exc; }
	int which(int i) { const std::type_info& t = x.s[i]->type(); int w = x.s[i]->which() + Base, k = t == typeid(int) ? 1 : t == typeid(std::string) ? 2 : t == typeid(Val) ? 3 : 0; return k == w ? w : 77; }
	int empty(int i) { return x.s[i]->empty(); }
	void cmp(int i, int j, int& eq, int& lt) { if (!rel(*x.s[i], *x.s[j], eq, lt)) eq = 7; }
	struct Vis : public static_visitor<int> { int operator () (const EmptyType&) const { return 0; } int operator () (int v) const { return 100 + v; } int operator () (const std::string& s) const { return 200 + unstr(s); } int operator () (const Val& v) const { return 300 + v.get(); } };
	int visit(int i, int& v) { const H& h = *x.s[i]; int r = vs::chance(1, 2) ? h.ApplyVisitor(Vis()) : apply_visitor(Vis(), *x.s[i]); r += 60; v = r == 60 ? 0 : r % 100 - 60; return r / 100; }
};
struct AnyF : Fam
{
	typedef any H; Slots<H> x;
	AnyF() { for (int i = 1; i < 4; ++i) x.make(i); }
	const char* name() { return "any"; } bool hasTy(int ty) { return ty >= 1; } bool canCmp() { return false; } bool canSwap() { return true; }
	template <class T> void put(int i, const T& a, int how) { H& h = *x.s[i]; switch (how) { case 1: { T b(a); h = std::move(b); break; } case 4: x.make(i, a); break; case 5: h = H(a); break; default: h = a; } }
	void set(int i, int ty, int v, int how) { switch (ty) { case 1: put(i, v, how); break; case 2: put(i, str(v), how); break; default: { Val a(v); put(i, a, how); } } }
	void copy(int i, int j, bool c) { if (c) x.make(i, static_cast<const H&>(*x.s[j])); else *x.s[i] = static_cast<const H&>(*x.s[j]); }
	void move(int i, int j, bool c) { if (c) x.make(i, std::move(*x.s[j])); else *x.s[i] = std::move(*x.s[j]); }
	void swap(int i, int j) { std::swap(*x.s[i], *x.s[j]); }
	void reset(int i) { *x.s[i] = H(); }
	static int num(int v) { return v; } static int num(const std::string& s) { return unstr(s); } static int num(const Val& v) { return v.get(); }
	template <class T> int as(int i, int how)
	{
		const H& h = *x.s[i];
		switch (how) { case 0: { const T* p = any_cast<T>(&h); return p ? num(*p) : Exc; } case 1: { T* p = any_cast<T>(&*x.s[i]); return p ? num(*p) : Exc; } default: try { return num(any_cast<T>(h)); } catch (const bad_any_cast&) { return Exc; } }
	}
	int get(int i, int ty, int how) { return ty == 1 ? as<int>(i, how) : ty == 2 ? as<std::string>(i, how) : ty == 3 ? as<Val>(i, how) : Exc; }
	int which(int i) { for (int t = 1; t < 4; ++t) if (get(i, t, 0) != Exc) return t; return 0; }
	int empty(int i) { return x.s[i]->empty(); }
	int visit(int i, int& v) { int w = which(i); if (w) { v = get(i, w, 0); if (w < 3 && v != -55 && x.s[i]->ToString() != std::to_string(v)) return 9; } else if (x.s[i]->ToString() != "<empty>") return 9; return w; }
};
static int g_plain; static int plain() { return g_plain; }
struct FunF : Fam
{
	struct Fn : public function_info<int ()> { Val a; Fn(const Val& v) : a(v) { } int operator () () const { return a.get(); } };
	typedef function<int ()> H; Slots<H> x;
	FunF() { g_plain = 4; for (int i = 1; i < 4; ++i) x.make(i, &plain); }
	const char* name() { return "fun"; } bool hasTy(int ty) { return ty == 3; } int initTy() { return 1; } bool canReset() { return false; } bool canCmp() { return false; } bool canSwap() { return true; } bool fun() { return true; }
	void set(int i, int, int v, int how) { Val a(v); switch (how) { case 0: { Fn f(a); *x.s[i] = f; break; } case 1: *x.s[i] = Fn(a); break; case 2: x.make(i, Fn(a)); break; default: *x.s[i] = H(Fn(a)); } }
	void copy(int i, int j, bool c) { if (c) x.make(i, static_cast<const H&>(*x.s[j])); else if (vs::chance(1, 3)) { function_storage st(*x.s[j]); *x.s[i] = st.ToFunction<int ()>(); } else *x.s[i] = static_cast<const H&>(*x.s[j]); }
	void move(int i, int j, bool c) { if (c) x.make(i, std::move(*x.s[j])); else *x.s[i] = std::move(*x.s[j]); }
	void swap(int i, int j) { std::swap(*x.s[i], *x.s[j]); }
	void reset(int) { }
	int get(int i, int, int) { return (*x.s[i])(); }
	int which(int) { return 0; } int empty(int) { return 0; }
	int visit(int, int&) { return 0; }
};
static void run()
{
	vs::set_time_jitter(false); std::unique_ptr<Fam> f; typedef variant<TypeList<EmptyType, int, std::string, Val> > V0; typedef variant<TypeList<int, std::string, Val> > V1;
	switch (vs::rnd(0, 5)) { case 0: f.reset(new OptF); break; case 1: case 5: f.reset(new VarF<V0, 0>); break; case 2: f.reset(new VarF<V1, 1>); break; case 3: f.reset(new AnyF); break; default: f.reset(new FunF); }
	int ty[4] = {f->initTy(), f->initTy(), f->initTy(), f->initTy()}; // functions: 0 where not callable
	vs::ev("cfg").s("f", f->name()).i("ty", ty[0]).i("v", f->fun() ? 4 : 0).i("n", elem::live());
	for (int n = vs::rnd(2, 14); n > 0; --n)
	{
		int i = vs::rnd(1, 3), j = vs::rnd(1, 3), r = 1, t = 3, v = vs::rnd(0, 5), how = vs::rnd(0, 7); while (!f->hasTy(t = vs::rnd(1, 3))) ;
		bool arm = f->throws() && vs::chance(1, 3); int at = vs::rnd(0, 2), cons = vs::chance(1, 3);
		switch (vs::rnd(0, 11))
		{
		case 0: case 1: case 2: if (arm) elem::fuse() = at; try { f->set(i, t, v, how); } catch (const elem::Boom&) { r = Exc; } elem::fuse() = -1; if (r == 1) ty[i] = t; vs::ev("set").i("i", i).i("ty", t).i("v", v).i("f", arm).i("r", r).i("n", elem::live()); break;
		case 3: case 4: if (f->fun() && !ty[j]) break; if (cons && i == j) break; if (arm) elem::fuse() = at; try { f->copy(i, j, cons); } catch (const elem::Boom&) { r = Exc; } elem::fuse() = -1; if (r == 1) ty[i] = ty[j]; vs::ev("cpy").i("i", i).i("j", j).i("f", arm).i("r", r).i("n", elem::live()); break;
		case 5: if (i == j || (f->fun() && !ty[j])) break; f->move(i, j, cons); ty[i] = ty[j]; if (f->fun()) ty[j] = 0; vs::ev("mov").i("i", i).i("j", j).i("n", elem::live()); break;
		case 6: if (!f->canSwap() || i == j) break; f->swap(i, j); std::swap(ty[i], ty[j]); vs::ev("swp").i("i", i).i("j", j).i("n", elem::live()); break;
		case 7: if (!f->canReset()) break; f->reset(i); vs::ev("rst").i("i", i).i("n", elem::live()); break;
		case 8: if (f->fun()) { if (ty[i]) { r = f->get(i, ty[i], 0); vs::ev("get").i("i", i).i("ty", ty[i]).i("r", r); } break; } t = vs::rnd(1, 3); r = f->get(i, t, vs::rnd(0, 4)); vs::ev("get").i("i", i).i("ty", t).i("r", r); break;
		case 9: if (f->fun()) break; if (vs::chance(1, 2)) { r = f->which(i); vs::ev("whc").i("i", i).i("r", r); } else { r = f->empty(i); vs::ev("emp").i("i", i).i("r", r); } break;
		case 10: if (f->canCmp()) { int eq = 0, lt = 0; f->cmp(i, j, eq, lt); vs::ev("cmp").i("i", i).i("j", j).i("eq", eq).i("lt", lt); } break;
		default:
			if (f->opt() && vs::chance(2, 3)) { if (vs::chance(1, 2)) { r = f->apply(i, vs::rnd(0, 2)); vs::ev("app").i("i", i).i("r", r); } else { r = f->valueOr(i, v); vs::ev("vor").i("i", i).i("d", v).i("r", r); } }
			else if (!f->fun()) { int vv = 0; int w = f->visit(i, vv); vs::ev("vis").i("i", i).i("ty", w).i("v", vv); }
		}
	}
	f.reset(); vs::ev("die").i("n", elem::live());
}
int main(int argc, char** argv) { return vs::main(argc, argv, run); }
