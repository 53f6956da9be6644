// Caches: random operation sequences with eviction listeners.
#include "drv.h"
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>
#include <memory>
using namespace stingray; using namespace drv;
struct Mod4 { size_t operator () (int v) const { return v % 4; } };
typedef ICache<int, int> C;
static C* g; static bool nested; static int nk;
struct Ev : public function_info<void (int, int)>
{
	void operator () (int k, int v) const { vs::ev("evict").i("k", k).i("v", v); if (nested && vs::chance(1, 3)) { int k2 = vs::rnd(0, nk - 1), o = -1; bool b = g->TryGet(k2, o); vs::ev("inner").i("k", k2).i("r", b ? o : -1); } }
};
template <class S> static C* make(int b, const std::vector<int>& cap) { if (b == 0) return new FifoCache<int, int, S>(cap[0]); if (b == 1) return new LruCache<int, int, S>(cap[0]); return new TwoQueueCache<int, int, S>(cap[0], cap[1], cap[2]); }
static void c(const char* op, int k = 0, int v = 0) { call(op).i("k", k).i("v", v); }
static void rt(const char* op, int r = 0) { ret(op).i("r", r); }
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		vs::set_time_jitter(false);
		int b = vs::rnd(0, 3), sm = vs::rnd(0, 1); std::vector<int> cap(3, 0); if (b == 3) b = 2; int mx = sm ? 7 : 4;
		cap[0] = vs::rnd(0, mx); if (b == 2) { cap[1] = vs::rnd(0, mx); cap[2] = vs::rnd(0, mx); }
		static const char* K[] = { "fifo", "lru", "2q" };
		vs::ev("cfg").s("b", K[b]).i("sm", sm).li("cap", cap);
		std::unique_ptr<C> p(sm ? make<Mod4>(b, cap) : make<DefaultCacheSizeMapper>(b, cap)); g = p.get();
		nested = b != 2 && vs::chance(1, 2); nk = vs::rnd(2, 6);
		Token con = p->OnEvicted().connect(Ev());
		for (int n = vs::rnd(5, 40); n > 0; --n)
		{
			int w = vs::rnd(0, 19), k = vs::rnd(0, nk - 1);
			if (w < 9) { int v = vs::rnd(1, 9); c("set", k, v); p->Set(k, v); rt("set"); }
			else if (w < 15) { c("get", k); int o = -5; bool r = p->TryGet(k, o); rt("get", r ? o : -1); }
			else if (w < 17) { c("rm", k); bool r = p->Remove(k); rt("rm", r); }
			else if (w < 19) { c("size"); int r = p->GetSize(); rt("size", r); }
			else if (vs::chance(1, 3)) { c("clear"); p->Clear(); rt("clear"); }
		}
		c("size"); rt("size", p->GetSize());
		for (int k = 0; k < nk; ++k) { c("get", k); int o = -5; bool r = p->TryGet(k, o); rt("get", r ? o : -1); }
	});
}
