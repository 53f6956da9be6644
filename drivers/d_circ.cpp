// Circular buffers: BithreadCircularBuffer (one reader, one writer, offsets serialised by the user) and MemoryCircularBuffer (self-locking).
#include "drv.h"
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/thread/Thread.h>
using namespace stingray; using namespace drv;
static int g_next;
static std::vector<u8> fresh(int n) { vs::no_preempt np; std::vector<u8> v; for (int i = 0; i < n; ++i) v.push_back(1 + g_next++ % 250); return v; }
static std::vector<int> ints(const std::vector<u8>& v) { return std::vector<int>(v.begin(), v.end()); }
static std::vector<u8> slow(const u8* p, size_t n) { std::vector<u8> r; for (size_t i = 0; i < n; ++i) { if (i % 2) vs::point(); r.push_back(p[i]); } return r; }

static void bi(int n)
{
	{ vs::ev e("cfg"); e.s("kind", "bi").i("n", n); }
	BithreadCircularBuffer b(n); Mutex m; int rops = vs::rnd(1, 6), wops = vs::rnd(1, 6); bool dirtyPop = vs::chance(1, 3);
	auto wr = [&]{
		for (int i = 0; i < wops; ++i)
		{
			std::unique_ptr<BithreadCircularBuffer::Writer> w;
			{ MutexLock l(m); vs::no_preempt np; w.reset(new BithreadCircularBuffer::Writer(b.Write())); vs::ev("write").i("size", w->size()).i("end", w->IsBufferEnd());
			  if (vs::chance(1, 4)) vs::ev("sizes").i("data", b.GetDataSize()).i("free", b.GetFreeSize()); }
			int k = w->size() ? (vs::chance(1, 2) ? (int)w->size() : vs::rnd(0, w->size())) : 0;
			std::vector<u8> d = fresh(k);
			for (int j = 0; j < k; ++j) { if (j % 2) vs::point(); w->data()[j] = d[j]; }
			MutexLock l(m); vs::no_preempt np; vs::ev("push").li("d", ints(d)); w->Push(k);
		}
	};
	auto rd = [&]{
		for (int i = 0; i < rops; ++i)
		{
			std::unique_ptr<BithreadCircularBuffer::Reader> r;
			{ MutexLock l(m); vs::no_preempt np; r.reset(new BithreadCircularBuffer::Reader(b.Read())); vs::ev("read").i("size", r->size()).i("end", r->IsBufferEnd()); }
			std::vector<u8> d = slow(r->data(), r->size());
			vs::ev("bytes").li("d", ints(d));
			int k = vs::chance(1, 2) ? (int)r->size() : vs::rnd(0, r->size());
			MutexLock l(m); vs::no_preempt np; vs::ev("pop").i("n", k); r->Pop(k);
		}
	};
	for (int round = vs::rnd(1, 2); round > 0; --round)
	{
		vs::spawn(1, wr); vs::spawn(2, rd); vs::join(1); vs::join(2);
		if (round > 1) { vs::ev("bclear"); b.Clear(); rops = vs::rnd(1, 4); wops = vs::rnd(1, 4); }
	}
	{ vs::no_preempt np; vs::ev("sizes").i("data", b.GetDataSize()).i("free", b.GetFreeSize()); }
	for (;;) { BithreadCircularBuffer::Reader r = b.Read(); vs::ev("read").i("size", r.size()).i("end", r.IsBufferEnd()); if (!r.size()) break; vs::ev("bytes").li("d", ints(slow(r.data(), r.size()))); vs::ev("pop").i("n", r.size()); r.Pop(r.size()); }
}
static vs::ev c(const char* op, int n = 0, const std::vector<u8>& d = std::vector<u8>()) { vs::ev e = call(op); e.i("n", n).li("d", ints(d)); return e; }
static void rt(const char* op, int r) { ret(op).i("r", r); }
template <bool D> static void mem(int n)
{
	{ vs::ev e("cfg"); e.s("kind", D ? "memd" : "mem").i("n", n); }
	MemoryCircularBuffer<D> b(n);
	CircularDataReserverPtr res;
	auto push = [&]{
		std::vector<u8> d = fresh(vs::rnd(0, n + 1));
		c("push", 0, d); int r = 1;
		try { b.Push(ConstByteData(d.data(), d.size())); } catch (const BufferIsFullException&) { r = 0; } catch (const std::exception&) { r = -1; }
		rt("push", r);
	};
	auto query = [&]{
		int k = vs::rnd(0, 2), a = vs::rnd(0, n);
		if (k == 0) { c("size"); int r = b.GetSize(); rt("size", r); }
		else if (k == 1) { c("free"); int r = b.GetFreeSize(); rt("free", r); }
		else { c("can", a); bool r = b.CanPush(a); rt("can", r); }
	};
	auto release = [&]{ if (!res) return; vs::ev("bytes").li("d", ints(slow(res->GetData().data(), res->GetData().size()))); c("release"); res.reset(); rt("release", 0); };
	auto pop = [&]{
		release();
		int k = vs::chance(1, 3) ? n : vs::rnd(0, n);
		c("pop", k); res = b.Pop(k); rt("pop", res->GetData().size());
		vs::ev("bytes").li("d", ints(slow(res->GetData().data(), res->GetData().size())));
	};
	auto clear = [&]{ c("clear"); b.Clear(); rt("clear", 0); };
	auto all = [&]{ shared_ptr<std::vector<u8> > a = b.GetAllData(); vs::ev("all").li("d", ints(*a)); };
	if (vs::chance(1, 2))
	{
		for (int i = vs::rnd(3, 20); i > 0; --i)
		{
			int r = vs::rnd(0, 99);
			if (r < 45) push(); else if (r < 65) pop(); else if (r < 75) release(); else if (r < 85) clear(); else if (r < 95) query(); else all();
		}
	}
	else
	{
		vs::spawn(1, [&]{ for (int i = vs::rnd(1, 5); i > 0; --i) { int r = vs::rnd(0, 9); if (r < 7) push(); else if (r < 8) clear(); else query(); } });
		if (vs::chance(1, 3)) vs::spawn(3, [&]{ for (int i = vs::rnd(1, 2); i > 0; --i) { int r = vs::rnd(0, 9); if (r < 7) push(); else query(); } });
		else vs::spawn(3, []{});
		vs::spawn(2, [&]{ for (int i = vs::rnd(1, 5); i > 0; --i) { int r = vs::rnd(0, 9); if (r < 6) pop(); else if (r < 8) release(); else query(); } });
		vs::join(1); vs::join(2); vs::join(3);
	}
	release(); all();
	c("size"); rt("size", b.GetSize()); c("free"); rt("free", b.GetFreeSize());
}
int main(int argc, char** argv)
{
	return vs::main(argc, argv, []{
		g_next = 0;
		int k = vs::opti("kind", -1); if (k < 0) k = vs::rnd(0, 2);
		int n = vs::rnd(1, 6);
		if (k == 0) bi(n); else if (k == 1) mem<false>(n); else mem<true>(n);
	});
}
