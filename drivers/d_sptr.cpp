// Owning pointers: shared_ptr / weak_ptr / self_count_ptr / unique_ptr, each thread on pointers of its own.
#include "drv.h"
#include <stingraykit/self_counter.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/dynamic_caster.h>
using namespace stingray; using namespace drv;
struct Node;
struct Base { int id, k; u32 magic; Base(int id_, int k_) : id(id_), k(k_), magic(0x5A5A1234) { } virtual ~Base() { magic = 0; } };
struct Extra { int pad; Extra() : pad(7) { } virtual ~Extra() { } };
static bool failCtor, failDel; static int liveDel;
struct Node : public Extra, public Base
{
	shared_ptr<Base> next; weak_ptr<Base> self; Base part;
	explicit Node(int o) : Base(o, 0), part(o, 1) { if (failCtor) throw TestError(1); }
	~Node() { if (part.magic != 0x5A5A1234 || Base::magic != 0x5A5A1234) abort(); vs::point(); part.magic = 1; }
};
struct Watch : public Node
{
	bool isSelf;
	explicit Watch(int o) : Node(o), isSelf(false) { }
	~Watch() { vs::ev("destroy").i("o", id); if (isSelf) vs::ev("dlock").i("o", id).i("r", self.use_count() || self.lock().use_count()); }
};
struct Del
{
	bool live;
	Del() : live(true) { vs::no_preempt np; ++liveDel; }
	Del(const Del& o) : live(true) { if (failDel) throw TestError(2); vs::no_preempt np; ++liveDel; }
	~Del() { vs::no_preempt np; --liveDel; }
	void operator () (Base* p) const { Watch* w = dynamic_cast<Watch*>(p); vs::ev("deleter").i("o", w->id); delete w; }
};
struct Self : public self_counter<Self> { int o; u32 magic; explicit Self(int o_) : o(o_), magic(0xABCD) { } virtual ~Self() { if (magic != 0xABCD) abort(); magic = 0; vs::ev("destroy").i("o", o); } };
struct SelfD : public Self { explicit SelfD(int o_) : Self(o_) { } };
typedef shared_ptr<Base> SP; typedef weak_ptr<Base> WP; typedef self_count_ptr<Self> CP; typedef unique_ptr<Base> UP;
enum { NT = 3, PT = 16, NS = 5, NC = 3, NU = 2 };   // per thread: shared 0..4, self-counting 8..10, unique 12..13; weak 0..3
static SP S[NT * PT]; static WP W[NT * PT]; static CP C[NT * PT]; static UP U[NT * PT];
static int nobj;
static vs::ev& C0(vs::ev& e, int i, int j, int o, int k) { return e.i("i", i).i("j", j).i("o", o).i("k", k); }
static void cl(const char* op, int i = 0, int j = 0, int o = 0, int k = 0) { vs::ev e = call(op); C0(e, i, j, o, k); }
static int newobj(const char* op, int i, int k) { vs::no_preempt np; int o = ++nobj; cl(op, i, i, o, k); return o; }
static void rt(const char* op, int r = 0) { ret(op).i("r", r); }
static int val(const Base& b) { if (b.magic != 0x5A5A1234) abort(); return b.id * 4 + b.k; }
static void act(bool st)
{
	int t = vs::tid(), b = t * PT, i = b + vs::rnd(0, st ? NS - 1 : 1), j = b + vs::rnd(0, st ? NS - 1 : 1), wi = b + vs::rnd(0, 3), wj = b + vs::rnd(0, 3), v = vs::rnd(0, 99);
	int ci = b + 8 + vs::rnd(0, NC - 1), cj = b + 8 + vs::rnd(0, NC - 1), ui = b + 12 + vs::rnd(0, NU - 1), uj = b + 12 + vs::rnd(0, NU - 1);
	if (v < 8)
	{
		int k = vs::rnd(0, 5);
		if (k == 0) { int o = newobj("new", i, 0); S[i] = make_shared_ptr<Watch>(o); rt("new"); }
		else if (k == 1) { int o = newobj("new", i, 0); S[i] = shared_ptr<Node>(new Watch(o)); rt("new"); }
		else if (k == 2) { int o = newobj("new", i, 0); S[i].reset(new Watch(o)); rt("new"); }
		else if (k == 3) { int o = newobj("new", i, 1); S[i] = SP(new Watch(o), Del()); rt("new"); }
		else if (k == 4 && st)
		{
			bool d = vs::chance(1, 2); int r = 0, o = newobj("newfail", i, d);
			if (!d) { failCtor = true; try { S[i] = make_shared_ptr<Watch>(o); } catch (const TestError&) { r = -1; } failCtor = false; }
			else { const Del del; Watch* w = new Watch(o); failDel = true; try { S[i] = SP(w, del); } catch (const TestError&) { r = -1; } failDel = false; }
			rt("newfail", r);
		}
		else { int o = newobj("new", ui, 0); U[ui] = make_unique_ptr<Watch>(o); rt("new"); }
	}
	else if (!st && v < 14) { cl("relu", i); bool r = S[i].release_if_unique(); rt("relu", r); }
	else if (v < 20) { if (vs::chance(1, 3)) { cl("copy", i, j); SP t(S[j]); S[i] = std::move(t); } else { cl("copy", i, j); S[i] = S[j]; } rt("copy"); }
	else if (v < 26) { cl("move", i, j); if (vs::chance(1, 2) && i != j) { SP t(std::move(S[j])); S[i].swap(t); } else S[i] = std::move(S[j]); rt("move"); }
	else if (v < 30) { cl("swap", i, j); if (vs::chance(1, 2)) S[i].swap(S[j]); else stingray::swap(S[i], S[j]); rt("swap"); }
	else if (v < 38) { cl("reset", i); if (vs::chance(1, 2)) S[i].reset(); else S[i] = null; rt("reset"); }
	else if (v < 50) { cl("lock", i, wj); S[i] = W[wj].lock(); rt("lock", S[i].use_count() != 0); }
	else if (v < 56) { cl("weak", wi, j); if (vs::chance(1, 2)) W[wi] = S[j]; else W[wi] = S[j].weak(); rt("weak"); }
	else if (v < 58) { cl("wcopy", wi, wj); W[wi] = W[wj]; rt("wcopy"); }
	else if (v < 60) { cl("wmove", wi, wj); W[wi] = std::move(W[wj]); rt("wmove"); }
	else if (v < 61) { cl("wswap", wi, wj); W[wi].swap(W[wj]); rt("wswap"); }
	else if (v < 63) { cl("wreset", wi); W[wi].reset(); rt("wreset"); }
	else if (v < 67) { cl("relu", i); bool r = S[i].release_if_unique(); rt("relu", r); }
	else if (v < 70) { cl("count", i); int r = S[i].use_count(); rt("count", r); }
	else if (v < 72) { cl("unique", i); int r = S[i].unique(); rt("unique", r); }
	else if (v < 74) { cl("wcount", wi); int r = W[wi].use_count(); rt("wcount", r); }
	else if (v < 75) { cl("expired", wi); int r = W[wi].expired(); rt("expired", r); }
	else if (v < 78) { cl("get", i); int r = 0; try { r = vs::chance(1, 2) ? val(*S[i]) : (val(*S[i].operator->())); } catch (const NullPointerException&) { } if ((r != 0) != bool(S[i])) r = -9; rt("get", r); }
	else if (v < 80) { cl("count", i); int r = S[i].use_count(); rt("count", r); }
	else if (v < 88) switch (vs::rnd(0, 6))
	{
		case 0: { int o = newobj("new", ci, 0); C[ci] = make_self_count_ptr<SelfD>(o); rt("new"); break; }
		case 1: case 2: cl("copy", ci, cj); if (C[cj] && vs::chance(1, 3)) C[ci] = C[cj]->self_count_ptr_from_this(); else if (vs::chance(1, 3)) { self_count_ptr<const Self> x(C[cj]); C[ci] = C[cj]; } else C[ci] = C[cj]; rt("copy"); break;
		case 3: cl("move", ci, cj); C[ci] = std::move(C[cj]); rt("move"); break;
		case 4: cl("swap", ci, cj); C[ci].swap(C[cj]); rt("swap"); break;
		case 5: cl("reset", ci); C[ci].reset(); rt("reset"); break;
		default: if (vs::chance(1, 2)) { cl("count", ci); int r = C[ci].use_count(); rt("count", r); } else { cl("get", ci); int r = 0; try { r = C[ci]->o * 4; } catch (const NullPointerException&) { } rt("get", r); }
	}
	else if (v < 93) switch (vs::rnd(0, 4))
	{
		case 0: cl("move", ui, uj); U[ui] = std::move(U[uj]); rt("move"); break;
		case 1: cl("reset", ui); U[ui].reset(); rt("reset"); break;
		case 2: cl("get", ui); { int r = 0; try { r = val(*U[ui]); } catch (const NullPointerException&) { } rt("get", r); } break;
		case 3: cl("swap", ui, uj); U[ui].swap(U[uj]); rt("swap"); break;
		default: cl("move", i, uj); S[i] = std::move(U[uj]); rt("move");
	}
	else if (!st && v < 96) { cl("reset", i); S[i].reset(); rt("reset"); }
	else if (!st) { cl("lock", i, wj); S[i] = W[wj].lock(); rt("lock", S[i].use_count() != 0); }
	else switch (vs::rnd(0, 9))
	{
		case 0: { cl("cast", i, j); shared_ptr<Extra> e = dynamic_caster(S[j]); S[i] = e ? dynamic_cast<Node*>(e.get()) ? SP(e, static_cast<Base*>(dynamic_cast<Node*>(e.get()))) : SP() : SP(); e.reset(); rt("cast"); break; }
		case 1: { cl("cast", i, j); shared_ptr<Node> e = dynamic_caster(S[j]); S[i] = std::move(e); rt("cast"); break; }
		case 2: { cl("eq", i, j); int r = S[i] == S[j]; rt("eq", r); break; }
		case 3: { cl("same", i, j); int r = !S[i].owner_before(S[j]) && !S[j].owner_before(S[i]); rt("same", r); break; }
		case 4: { cl("wsame", i, wj); int r = !S[i].owner_before(W[wj]) && !W[wj].owner_before(S[i]); rt("wsame", r); break; }
		case 5: case 6: { cl("link", i, j); int r = -1; if (S[i] && S[i]->k == 0) { dynamic_cast<Watch*>(S[i].get())->next = S[j]; r = 0; } rt("link", r); break; }
		case 7: { cl("self", i); int r = -1; if (S[i] && S[i]->k == 0) { Watch* w = dynamic_cast<Watch*>(S[i].get()); w->self = S[i]; w->isSelf = true; r = 0; } rt("self", r); break; }
		case 8: { cl("live"); rt("live", liveDel); break; }
		default: { int k = vs::rnd(1, 2); if (k == 1 && S[j] && S[j]->k == 1) { cl("copy", i, j); S[i] = S[j]; rt("copy"); break; }
			if (vs::chance(1, 2)) { cl("alias", i, j, 0, k); Base* p = k == 2 || !S[j] ? 0 : &dynamic_cast<Watch*>(S[j].get())->part; S[i] = SP(S[j], p); rt("alias"); }
			else { cl("malias", i, j, 0, k); Base* p = k == 2 || !S[j] ? 0 : &dynamic_cast<Watch*>(S[j].get())->part; S[i] = SP(std::move(S[j]), p); rt("malias"); } }
	}
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		vs::ev("cfg").i("x", 0);
		bool st = vs::chance(1, 3);
		nobj = liveDel = 0;
		if (st) for (int i = vs::rnd(2, 25); i > 0; --i) act(true);
		else
		{
			bool duel = vs::chance(1, 2);
			if (duel)
			{
				int o = newobj("new", 0, 0); S[0] = make_shared_ptr<Watch>(o); rt("new");
				for (int t = 0; t < NT; ++t) for (int w = 0; w < 4; ++w) if (w == 0 || vs::chance(1, 2)) { cl("weak", t * PT + w, 0); W[t * PT + w] = S[0]; rt("weak"); }
				for (int t = 1; t < NT; ++t) vs::spawn(t, [&]{ for (int i = vs::rnd(1, 4); i > 0; --i) { int b = vs::tid() * PT, k = vs::rnd(0, 9); if (k < 6) { cl("lock", b, b); S[b] = W[b].lock(); rt("lock", S[b].use_count() != 0); } else if (k < 9) { cl("relu", b); bool r = S[b].release_if_unique(); rt("relu", r); } else act(false); } });
				for (int i = vs::rnd(1, 3); i > 0; --i) { int k = vs::rnd(0, 9); if (k < 5) { cl("relu", 0); bool r = S[0].release_if_unique(); rt("relu", r); } else if (k < 7) { cl("reset", 0); S[0].reset(); rt("reset"); } else act(false); }
				for (int t = 1; t < NT; ++t) vs::join(t);
			}
			else {
			for (int i = vs::rnd(1, 3); i > 0; --i) act(false);
			for (int t = 1; t < NT; ++t) for (int i = vs::rnd(1, 4); i > 0; --i)
			{
				int k = vs::rnd(0, 9), a = t * PT + vs::rnd(0, 1), b = vs::rnd(0, 1), w = t * PT + vs::rnd(0, 3);
				if (k < 4) { cl("copy", a, b); S[a] = S[b]; rt("copy"); }
				else if (k < 8) { cl("weak", w, b); W[w] = S[b]; rt("weak"); }
				else { int c = 8 + vs::rnd(0, NC - 1); cl("copy", t * PT + 8, c); C[t * PT + 8] = C[c]; rt("copy"); }
			}
			for (int t = 1; t < NT; ++t) vs::spawn(t, [&]{ for (int i = vs::rnd(1, 6); i > 0; --i) act(false); });
			for (int i = vs::rnd(0, 5); i > 0; --i) act(false);
			for (int t = 1; t < NT; ++t) vs::join(t);
			}
		}
		for (int q = 0; q < NT * PT; ++q) { if (S[q].use_count()) { cl("reset", q); S[q].reset(); rt("reset"); } if (C[q]) { cl("reset", q); C[q].reset(); rt("reset"); } if (U[q]) { cl("reset", q); U[q].reset(); rt("reset"); } if (q % PT < 4) { cl("wreset", q); W[q].reset(); rt("wreset"); } }
		cl("live"); rt("live", liveDel);
	});
}
